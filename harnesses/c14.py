"""C14 Top-level lookup: common.get_metadata_root_record_from_top_nodes and its callers, for arbitrary top-level
objects. Version lists and UUID sets are executed; tree nodes are under the contract of
MTreeNode.get_object_at_path and add_child_at (proved in C04)"""
import ast

import z3
from pyvc import builtins_ as bi
from pyvc.core import B, DSet, HDict, HSet, I, Lit, Obj, PathV, SeqS, Unsupported

from .common import Elements, VersionLists, comp, events, name_facts, why

C = "common"
PKG = "dataladmetadatamodel"
NODE = f"{PKG}.mtreenode.MTreeNode"
RECORD = "metadatarootrecord.MetadataRootRecord"
AUTO = (False, True)


def empty(k):
    return k.new("metadatapath.MetadataPath", "")


class Store:
    """arbitrary top-level objects"""

    def __init__(self, k):
        self.k = k
        k.ext.install_path_contract()
        self.reserved = k.it.module(f"{PKG}.datasettree").slots["datalad_root_record_name"]
        self.E = Elements(k)
        self.saved = k.str("somewhere")
        # the version list with its trees
        self.T = VersionLists(k, "datasettree.DatasetTree", name="tvl")
        self.tvl = k.new("versionlist.TreeVersionList")
        self.us = k.new("uuidset.UUIDSet")
        u = k.uid()
        self.has = z3.Function(f"has_record@{u}", I, I, SeqS, B)
        self.records = k.fam("stored_record", RECORD, {
            "dataset_identifier": lambda i, j, p: bi.UuidV(z3.Function(f"record_id@{u}", I, I, SeqS, z3.StringSort())(i, j, p)),
            "dataset_version": lambda i, j, p: z3.Function(f"record_version@{u}", I, I, SeqS, z3.StringSort())(i, j, p),
            "realm": None, "reference": None, "mapped": True}, arity=3)
        # the set of identifiers with its lists
        self.src = k.src("uuids")
        self.uuid = k.invertible("uuid", 1)
        k.injective(self.uuid, self.src)
        self.lists = k.fam("list", "versionlist.VersionList", {"reference": None, "realm": None, "mapped": True},
                           on_create=self.new_list)
        i = k.var()
        self.dict = HDict([comp(self.src, i, DSet(bi.UuidV(self.uuid(i)), k.generic(self.lists, i)))])
        for o, a, d in ((self.tvl, "version_set", self.T.outer), (self.us, "uuid_set", self.dict)):
            k.ctx.put(o, a, d)
            k.ctx.put(o, "saved_on", HSet([Lit(self.saved)]))
        k.it.contracts[f"{NODE}.get_object_at_path"] = lambda it, s: self.node_get(s["self"], s["path"])
        k.it.contracts[f"{NODE}.add_child_at"] = lambda it, s: self.node_add(s["self"], s["path"], s["child"])

    def new_list(self, o):
        k = self.k
        o.meta["D"] = D = VersionLists(k, RECORD, name=f"list{k.uid()}")
        k.ctx.put(o, "version_set", D.outer)
        k.ctx.put(o, "saved_on", HSet([Lit(self.saved)]))

    # tree nodes: a map from paths to records
    def node_get(self, node, path):
        k = self.k
        if not isinstance(path, PathV):
            raise Unsupported("node path")
        for p, o in reversed(self.writes(node)):
            if k.branch(p == path.term):
                return o
        if node.meta.get("fam") is not self.T.main.nodes:
            return None
        t = (*node.meta["idx"], z3.simplify(path.term))
        return k.member(self.records, *t) if k.branch(self.has(*t)) else None

    def writes(self, node):
        return self.k.ctx.get(node, "$writes") if bi.native(self.k.it, node, "$writes") else ()

    def node_add(self, node, path, child):
        if self.node_get(node, path) is not None:
            self.k.it.throw("ValueError", "Child node with the following name(s) already exist(s)")
        self.k.ctx.put(node, "$writes", self.writes(node) + ((path.term, child),))

    # ghost view of the state before the call
    def list(self, u):
        t = z3.simplify(self.k.ctx.tables["inv"][self.uuid.name()](u.term))
        self.k.ctx.register(self.src, t)
        if self.k.branch(z3.And(self.k.ctx.in_range(self.src, t), self.uuid(t) == u.term)):
            return self.k.member(self.lists, t)

    def tree(self, v, p):
        f, i, j = self.T.lookup(v, p)
        return (i, j) if self.k.branch(f) else None

    def record(self, tree, p):
        return self.node_get_base(tree, self.key(p)) if tree is not None else None

    def key(self, p):
        return bi.binop(self.k.it, ast.Div(), p, self.reserved)

    def node_get_base(self, tree, path):
        t = (*tree, z3.simplify(path.term))
        return self.k.member(self.records, *t) if self.k.branch(self.has(*t)) else None


class Args:
    def __init__(self, k, sub, auto):
        self.sub = sub
        self.dataset, self.version, self.prefix = k.uuid("dataset"), k.str("version"), k.path("prefix")
        self.path = k.path("dataset_path", nonempty=True) if sub else empty(k)
        self.root, self.root_version = (k.uuid("root"), k.str("root_version")) if sub else (None, None)
        self.auto = auto
        # the tree that holds the record, and the key in the list of the dataset
        self.tree_version = self.root_version if sub else self.version
        self.list_prefix = empty(k) if sub else self.prefix
        if sub:
            # a dataset is not contained in itself
            k.assume(z3.Or(self.dataset.term != self.root.term, self.version != self.root_version))

    def list(self, tvl, us):
        return (tvl, us, self.dataset, self.version, self.prefix, self.path, self.root, self.root_version, self.auto)


def call(k, st, a):
    f = k.it.module(f"{PKG}.{C}").slots["get_metadata_root_record_from_top_nodes"]
    return k.attempt(lambda: k.call(f, *a.list(st.tvl, st.us)))


def lookup_body(k, sub):
    st = Store(k)
    a = Args(k, sub, False)
    r = call(k, st, a)
    k.prove("lookup/no-error", r.ok, why(k, r))
    if not r.ok:
        return
    tree = st.tree(a.tree_version, a.prefix)
    stored = st.record(tree, a.path)
    k.prove("lookup/the-stored-record-or-nothing", r.value is None or (stored is not None and r.value is stored))
    if stored is not None and st.list(a.dataset) is not None:
        known = not sub or (st.list(a.root) is not None and st.record(tree, empty(k)) is not None)
        if known:
            k.cover("lookup/found")
            k.prove("lookup/found", r.value is stored)
    unchanged(k, st)


def unchanged(k, st):
    """no container, list or node was modified"""
    for o, a, d in ((st.tvl, "version_set", st.T.outer), (st.us, "uuid_set", st.dict)) + tuple(
            (o, "version_set", o.meta["D"].outer) for _, o in st.lists.state.slots["objs"]):
        k.prove("lookup/nothing-is-modified", k.ctx.get(o, a) is d and k.truth(k.call(
            k.it.builtins["len"], k.ctx.get(o, "saved_on"))))
        k.prove("lookup/content-is-kept", len(k.ctx.get(d, "segs")) == 1)
    for _, o in st.T.main.nodes.state.slots["objs"]:
        k.prove("lookup/trees-are-kept", st.writes(o) == ())


def lookup_dataset(k):
    """without creation: the record of a dataset or nothing"""
    lookup_body(k, False)


def lookup_sub_dataset(k):
    """without creation: the record of a sub-dataset or nothing"""
    lookup_body(k, True)


# ---------------------------------------------------------------- automatic creation

def create_body(k, sub, check):
    st = Store(k)
    a = Args(k, sub, True)
    r = call(k, st, a)
    k.prove("create/no-error", r.ok, why(k, r))
    if r.ok:
        k.prove("create/a-record", isinstance(r.value, Obj) and r.value.cls is k.cls(RECORD))
        k.split(lambda: check(k, st, a, r.value))


def new_record(k, label, x, uuid, version):
    """a fresh record of the given dataset, with empty metadata and an empty file tree"""
    ok = isinstance(x, Obj) and "fam" not in x.meta and x.cls is k.cls(RECORD)
    k.prove(f"{label}/new-record", ok)
    if ok:
        k.prove(f"{label}/identifier", k.eq(k.get(x, "dataset_identifier"), uuid))
        k.prove(f"{label}/version", k.eq(k.get(x, "dataset_version"), version))
        md, ft = k.ctx.get(x, "dataset_level_metadata"), k.ctx.get(x, "_file_tree")
        k.prove(f"{label}/empty-metadata", isinstance(md, Obj) and md.cls is k.cls("metadata.Metadata")
                and k.eq(k.call(k.it.builtins["len"], k.get(md, "instance_sets")), 0))
        k.prove(f"{label}/empty-file-tree", isinstance(ft, Obj) and ft.cls is k.cls("filetree.FileTree")
                and k.eq(k.call(k.it.builtins["len"], k.get(k.get(ft, "mtree"), "child_nodes")), 0))


def tree_at(k, st, v, p, label):
    t = k.attempt(lambda: k.m(st.tvl, "get_dataset_tree", v, p))
    k.prove(f"{label}/tree-of-the-version", t.ok, why(k, t))
    if t.ok:
        k.prove(f"{label}/prefix-path", k.eq(t.value[1], p))
        return t.value[2]


def record_in(k, st, tree, path):
    return st.node_get(k.get(tree, "mtree"), st.key(path))


def in_tree(k, st, a, r):
    """the record is existing or new, and found in the tree"""
    before = st.tree(a.tree_version, a.prefix)
    stored = st.record(before, a.path)
    if stored is not None:
        k.cover("create/existing")
        k.prove("create/the-existing-record", r is stored)
    else:
        k.cover("create/new")
        new_record(k, "create", r, a.dataset, a.version)
    t = tree_at(k, st, a.tree_version, a.prefix, "create")
    if t is None:
        return
    k.prove("create/existing-tree-is-kept", before is None or t is k.member(st.T.elements, *before))
    k.prove("create/in-the-tree", record_in(k, st, t, a.path) is r)
    if a.sub:
        root = st.record(before, empty(k))
        x = record_in(k, st, t, empty(k))
        if root is not None:
            k.prove("create/root-record-is-kept", x is root)
        else:
            new_record(k, "create/root", x, a.root, a.root_version)
    # any other record of the tree
    p = k.path("other_path")
    k.assume(p.term != a.path.term)
    if a.sub:
        k.assume(z3.Length(p.term) != 0)
    x = record_in(k, st, t, p)
    k.prove("create/other-records-of-the-tree-are-kept", x is st.record(before, p))


def in_list(k, st, a, r, label, uuid, version, prefix):
    """the version is in the list of the dataset, with the record, unless it was there before"""
    before = st.list(uuid)
    l = k.attempt(lambda: k.m(st.us, "get_version_list", uuid))
    k.prove(f"{label}/identifier-is-known", l.ok, why(k, l))
    if not l.ok:
        return
    k.prove(f"{label}/existing-list-is-kept", before is None or l.value is before)
    e = k.attempt(lambda: k.m(l.value, "get_versioned_element", version, prefix))
    k.prove(f"{label}/version-is-known", e.ok, why(k, e))
    if not e.ok:
        return
    k.prove(f"{label}/prefix-path", k.eq(e.value[1], prefix))
    if before is not None:
        D = before.meta["D"]
        has, i, j = D.lookup(version, prefix)
        if k.branch(has):
            k.cover(f"{label}/existing")
            k.prove(f"{label}/existing-entry-is-kept", e.value[2] is D.element(i, j) and k.eq(e.value[0], D.time(i, j)))
            return
    k.cover(f"{label}/new")
    k.prove(f"{label}/record", e.value[2] is r())


def in_set(k, st, a, r):
    """the record is found by its identifier"""
    in_list(k, st, a, lambda: r, "set", a.dataset, a.version, a.list_prefix)


def root_in_set(k, st, a, r):
    """the root record is found by its identifier"""
    def root():
        return record_in(k, st, tree_at(k, st, a.tree_version, a.prefix, "root"), empty(k))
    in_list(k, st, a, root, "root", a.root, a.root_version, a.prefix)


def other_trees(k, st, a, r):
    """every other tree is kept"""
    v, p = k.str("other_version"), k.path("other_prefix")
    k.assume(z3.Or(v != a.tree_version, p.term != a.prefix.term))
    before = st.tree(v, p)
    t = k.attempt(lambda: k.m(st.tvl, "get_dataset_tree", v, p))
    if before is None:
        k.prove("others/no-tree-is-added", not t.ok and k.is_exc(t.exc, "KeyError"))
        return
    k.cover("others/tree")
    k.prove("others/tree", t.ok and t.value[2] is k.member(st.T.elements, *before)
            and k.eq(t.value[0], st.T.time(*before)))
    if t.ok:
        q = k.path("path_in_tree")
        k.prove("others/record-in-tree", record_in(k, st, t.value[2], q) is st.record(before, q))


def other_lists(k, st, a, r):
    """the list of every other identifier is kept"""
    u = k.uuid("other_dataset")
    for x in (a.dataset, a.root):
        if x is not None:
            k.assume(u.term != x.term)
    before = st.list(u)
    l = k.attempt(lambda: k.m(st.us, "get_version_list", u))
    if before is None:
        k.prove("others/no-identifier-is-added", not l.ok and k.is_exc(l.exc, "KeyError"))
    else:
        k.cover("others/list")
        k.prove("others/list", l.ok and l.value is before and k.ctx.get(before, "version_set") is before.meta["D"].outer
                and len(k.ctx.get(before.meta["D"].outer, "segs")) == 1)


def other_versions(k, st, a, r, u):
    """every other version of the dataset and of its root is kept"""
    v, p = k.str("other_version"), k.path("other_prefix")
    for x, y, z in [(a.dataset, a.version, a.list_prefix)] + ([(a.root, a.root_version, a.prefix)] if a.sub else []):
        k.assume(z3.Or(u.term != x.term, v != y, p.term != z.term))
    before = st.list(u)
    l = k.attempt(lambda: k.m(st.us, "get_version_list", u))
    k.prove("others/list", l.ok and (before is None or l.value is before))
    if not l.ok:
        return
    e = k.attempt(lambda: k.m(l.value, "get_versioned_element", v, p))
    if before is not None:
        D = before.meta["D"]
        has, i, j = D.lookup(v, p)
        if k.branch(has):
            k.cover("others/entry")
            k.prove("others/entry", e.ok and e.value[2] is D.element(i, j) and k.eq(e.value[0], D.time(i, j)))
            return
    k.prove("others/no-version-is-added", not e.ok and k.is_exc(e.exc, "KeyError"))


def create_dataset(k):
    create_body(k, False, in_tree)


def create_dataset_set(k):
    create_body(k, False, in_set)


def create_dataset_other_trees(k):
    create_body(k, False, other_trees)


def create_dataset_other_lists(k):
    create_body(k, False, other_lists)


def create_dataset_other_versions(k):
    create_body(k, False, lambda k, st, a, r: other_versions(k, st, a, r, a.dataset))


def create_sub_dataset(k):
    create_body(k, True, in_tree)


def create_sub_dataset_set(k):
    create_body(k, True, in_set)


def create_sub_dataset_root(k):
    create_body(k, True, root_in_set)


def create_sub_dataset_other_trees(k):
    create_body(k, True, other_trees)


def create_sub_dataset_other_lists(k):
    create_body(k, True, other_lists)


def create_sub_dataset_other_versions(k):
    create_body(k, True, lambda k, st, a, r: other_versions(k, st, a, r, a.dataset))


def create_sub_dataset_other_root_versions(k):
    create_body(k, True, lambda k, st, a, r: other_versions(k, st, a, r, a.root))


# ---------------------------------------------------------------- top-level objects

KINDS = ["TreeVersionList", "UUIDSet"]


def top_level(k):
    """the two objects are loaded from their well-known references; a missing one is None, an unreadable one is
    reported, and neither has an influence on the other"""
    k.ext.install_path_contract()
    E = Elements(k)
    enum = k.it.module(f"{PKG}.mapper.gitmapper.objectreference").slots["GitReference"]
    refs = {n: k.get(k.get(enum, e), "value") for n, e in (("TreeVersionList", "TREE_VERSION_LIST"), ("UUIDSet", "UUID_SET"))}
    remote = k.branch(k.bool("remote"))
    realm = k.remote() if remote else k.realm()
    arg = realm if remote or k.branch(k.bool("str")) else k.call(k.it.module("pathlib").slots["Path"], realm)
    text = realm if arg is realm else k.call(k.it.builtins["str"], arg)
    state = {n: ("readable", "missing", "broken")[k.choose(3)] for n in KINDS}
    loaded = {}

    def read_in(it, s):
        o = s["self"]
        n = o.cls.name
        k.prove("top/realm", k.eq(k.ctx.get(o, "realm"), text))
        r = k.ctx.get(o, "reference")
        k.prove("top/reference", k.eq(k.get(r, "class_name"), n))
        k.prove("top/location", k.eq(k.get(r, "location"), refs[n]))
        k.prove("top/not-loaded-yet", k.ctx.get(o, "mapped") is False)
        if state[n] != "readable":
            it.throw("RuntimeError", f"cannot load {n}")
        k.ctx.put(o, "mapped", True)
        loaded[n] = o
        return o
    k.it.contracts[f"{PKG}.mappableobject.MappableObject.read_in"] = read_in

    def exists(it, s):
        k.prove("top/existence-of-the-reference-in-the-realm", k.eq(s["repo_dir"], text))
        n = [n for n in KINDS if k.truth(k.eq(s["ref_name"], refs[n]))]
        k.prove("top/existence-of-the-reference", len(n) == 1)
        return bool(n) and state[n[0]] != "missing"
    k.it.contracts[f"{PKG}.mapper.gitmapper.gitbackend.subprocess.git_reference_exists"] = exists
    f = k.it.module(f"{PKG}.{C}").slots["get_top_level_metadata_objects"]
    r = k.attempt(lambda: k.call(f, "git", arg))
    if not remote and "broken" in state.values():
        k.cover("top/unreadable")
        k.prove("top/unreadable-is-reported", not r.ok and k.is_exc(r.exc, "RuntimeError"))
        return
    k.prove("top/no-error", r.ok, why(k, r))
    if not r.ok:
        return
    k.prove("top/two-results", isinstance(r.value, tuple) and len(r.value) == 2)
    for n, x in zip(KINDS, r.value):
        if state[n] == "readable":
            k.cover(f"top/{n}")
            k.prove(f"top/{n}", x is not None and x is loaded.get(n))
        else:
            k.cover(f"top/no-{n}")
            k.prove(f"top/no-{n}", x is None)


def top_nodes(k):
    """existing top-level objects are used, missing ones are created or nothing is returned; the record is looked up
    for the dataset or the sub-dataset"""
    E = Elements(k)
    k.ext.install_path_contract()
    stored = [o if k.branch(k.bool(f"has_{n}")) else None for n, o in
              (("tvl", k.new("versionlist.TreeVersionList")), ("us", k.new("uuidset.UUIDSet")))]
    sub = k.branch(k.bool("sub"))
    auto = k.branch(k.bool("auto_create"))
    family, realm = "git", k.realm()
    dataset, version, prefix, path = k.uuid("dataset"), k.str("version"), k.path("prefix"), k.path("dataset_path")
    sid, sversion = (k.uuid("sub_dataset"), k.str("sub_version")) if sub else (None, None)
    record = k.new(RECORD, dataset, version, None, None) if k.branch(k.bool("record")) else None
    asked, loads = [], []
    k.it.contracts[f"{PKG}.{C}.get_top_level_metadata_objects"] = lambda it, s: (loads.append(s), tuple(stored))[1]
    k.it.contracts[f"{PKG}.{C}.get_metadata_root_record_from_top_nodes"] = lambda it, s: (asked.append(s), record)[1]
    f = k.it.module(f"{PKG}.{C}").slots["get_top_nodes_and_metadata_root_record"]
    r = k.attempt(lambda: k.call(f, family, realm, dataset, version, prefix, path, sid, sversion, auto))
    k.prove("nodes/no-error", r.ok, why(k, r))
    if not r.ok:
        return
    k.prove("nodes/loaded-from-the-realm", len(loads) >= 1 and all(k.truth(k.eq(s["realm"], realm)) for s in loads))
    if not auto and None in stored:
        k.cover("nodes/nothing")
        k.prove("nodes/nothing", r.value == (None, None, None))
        return
    k.prove("nodes/three-results", isinstance(r.value, tuple) and len(r.value) == 3)
    for x, o, c, d in zip(r.value, stored, ("versionlist.TreeVersionList", "uuidset.UUIDSet"), ("version_set", "uuid_set")):
        if o is not None:
            k.prove("nodes/existing-object-is-kept", x is o)
        else:
            k.cover("nodes/new")
            k.prove("nodes/new-object", isinstance(x, Obj) and x.cls is k.cls(c))
            k.prove("nodes/new-object-is-empty", k.eq(k.call(k.it.builtins["len"], k.get(x, d)), 0)
                    and k.ctx.get(x, "reference") is None and k.ctx.get(x, "mapped") is True)
    k.prove("nodes/one-lookup", len(asked) == 1 and r.value[2] is record)
    if len(asked) != 1:
        return
    s = asked[0]
    want = {"dataset_id": sid if sub else dataset, "primary_data_version": sversion if sub else version,
            "prefix_path": prefix, "dataset_tree_path": path, "auto_create": auto}
    if sub:
        want.update(root_dataset_id=dataset, root_dataset_version=version)
    for n, v in want.items():
        k.prove(f"nodes/lookup-{n}", k.eq(s[n], v))
    k.prove("nodes/lookup-in-the-returned-objects", s["tree_version_list"] is r.value[0] and s["uuid_set"] is r.value[1])


HARNESSES = [top_level, top_nodes, lookup_dataset, lookup_sub_dataset, create_dataset, create_dataset_set, create_dataset_other_trees,
             create_dataset_other_lists, create_dataset_other_versions,
             create_sub_dataset, create_sub_dataset_set, create_sub_dataset_root, create_sub_dataset_other_trees,
             create_sub_dataset_other_lists, create_sub_dataset_other_versions,
             create_sub_dataset_other_root_versions]
