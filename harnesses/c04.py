"""C04 Trees behave like maps from paths to leaves. The map of a tree is defined by its children: the path
x is mapped to the leaf x, the path x/r is mapped to what the sub-tree x maps r to. Each function is verified
against this definition; recursive calls on sub-trees are under the same contract"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, Comp, DSet, HDict, HList, I, Lit, Obj, PathV, S, SeqS, Src

from . import c01
from .common import MO, MP, why
from .state import Content, name_first, opaque, per_class

T = "dataladmetadatamodel.mtreenode.MTreeNode"
ROOT_RECORD = ".datalad_metadata_root_record"


# ------------------------------------------------------------------ lookup

class Walk:
    """The walk from a tree along a path: after n elements a tree, a leaf or nothing is reached.
    get_child is under contract: the child with the name"""

    def __init__(self, k, path, start, leaf):
        self.k = k
        self.seq = path.term
        u = k.uid()
        self.is_tree = z3.Function(f"walk_is_tree@{u}", I, B)
        self.present = z3.Function(f"walk_is_present@{u}", I, B)
        self.trees = k.fam("walk_tree", "mtreenode.MTreeNode", {"mapped": True, "leaf_class": k.cls(leaf)})
        self.leaves = k.fam("walk_leaf", leaf, {})
        self.start = start
        k.ctx.fact(self.is_tree(0))
        k.it.contracts[f"{T}.get_child"] = self.get_child
        k.it.invariants[f"{T}.get_object_at_path"] = self

    def at(self, n):
        n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
        if self.k.ctx.entails(n == 0):
            return self.start
        if self.k.branch(n == 0):
            return self.start
        return self.k.member(self.trees if self.k.branch(self.is_tree(n)) else self.leaves, n)

    def position(self, o):
        if o is self.start:
            return z3.IntVal(0)
        return o.meta["idx"][0] if o.meta.get("fam") is self.trees else None

    def get_child(self, it, s):
        k = self.k
        n = self.position(s["self"])
        k.prove("lookup/descends-from-the-nodes-of-the-path", n is not None)
        x = bi.term(s["child_name"])
        k.prove("lookup/descends-along-the-path", x == self.seq[n])
        n = z3.simplify(n + 1)
        if not k.branch(self.present(n)):
            return None
        return self.at(n)

    # the invariant of the loop: after n elements the node is walk(n), the path up to it exists
    def state(self, n, names):
        if len(names) != 1:
            raise NotImplementedError("invariant")
        j = z3.Const(f"~walk!{self.k.uid()}", I)
        self.reached = n
        self.k.assume(z3.Or(n == 0, self.present(n)))
        return {names[0]: self.at(n)}

    def check(self, n, values):
        v = list(values.values())
        k = self.k
        self.last = n
        k.prove("lookup/one-variable", len(v) == 1)
        m = self.position(v[0]) if isinstance(v[0], Obj) else None
        if m is None and isinstance(v[0], Obj) and v[0].meta.get("fam") is self.leaves:
            m = v[0].meta["idx"][0]
        k.prove("lookup/next-node", m is not None and m == n)


def lookup(k):
    """get_object_at_path follows the path for any length: the node that is reached, or None if the path
    leaves the tree or leads through a leaf"""
    k.ext.install_path_contract()
    t = k.new("mtreenode.MTreeNode", k.cls("metadata.Metadata"))
    x, p = name_first(k)
    if k.bool("empty_path"):
        p = PathV(z3.Empty(SeqS))
    W = Walk(k, p, t, "metadata.Metadata")
    a = k.attempt(lambda: k.m(t, "get_object_at_path", p))
    k.prove("lookup/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    n = getattr(W, "reached", None)
    if n is None:
        k.prove("lookup/empty-path", a.value is t)
        return
    if a.value is None:
        k.cover("lookup/none")
        k.prove("lookup/none-only-if-absent", z3.Or(z3.Not(W.is_tree(n)), z3.Not(W.present(n + 1))))
        k.prove("lookup/none-within-the-path", n < z3.Length(p.term))
    else:
        k.cover("lookup/found")
        k.prove("lookup/the-whole-path", n == z3.Length(p.term))
        k.prove("lookup/found", a.value is W.at(n))


# ------------------------------------------------------------------ direct children

def same_children(k, X, label, without=None):
    """every other name still leads to the same child, or to none"""
    y = k.name("any_name")
    if without is not None:
        k.assume(y != without)
    has, i = X.D.index(y)
    c = k.m(X.o, "get_child", y)
    if k.branch(has):
        k.cover(f"{label}/known-name")
        k.prove(f"{label}/same-child", c is X.D.child(i))
    else:
        k.prove(f"{label}/no-other-child", c is None)


def children(k):
    """get_child: the child with the name, whether the tree is loaded or not"""
    X = Content(k, "MTreeNode")
    X.remember()
    same_children(k, X, "children")
    X.unchanged("children")
    y = k.name()
    has, i = X.D.index(y)
    k.prove("children/contains", bi.boolterm(k.truth(k.m(X.o, "contains_child", y))) == has)


def add_child(k):
    """a child is added under a free name, everything else stays; an occupied or illegal name is rejected"""
    X = Content(k, "MTreeNode")
    X.remember()
    legal = k.bool("legal")
    x = k.name("new_name") if legal else k.str("illegal_name")
    if not legal:
        k.assume(z3.Or(x == z3.StringVal("."), z3.Contains(x, z3.StringVal("/"))))
    has, i = X.D.index(x)
    c = opaque(k, "metadata.Metadata")
    a = k.attempt(lambda: k.m(X.o, "add_child", x, c))
    if not legal:
        k.prove("add-child/illegal-name-is-rejected", not a.ok)
        X.unchanged("add-child/illegal")
    elif a.ok:
        k.cover("add-child/added")
        k.prove("add-child/name-was-free", z3.Not(has))
        k.prove("add-child/found", k.m(X.o, "get_child", x) is c)
        same_children(k, X, "add-child", x)
    else:
        k.cover("add-child/occupied")
        k.prove("add-child/rejected-only-if-occupied", has)
        k.prove("add-child/rejected-with-ValueError", k.is_exc(a.exc, "ValueError"), why(k, a))
        X.unchanged("add-child/occupied")


def remove_child(k):
    """exactly the child with the name is removed"""
    X = Content(k, "MTreeNode")
    X.remember()
    x = k.name("old_name")
    has, i = X.D.index(x)
    a = k.attempt(lambda: k.m(X.o, "remove_child", x))
    if a.ok:
        k.cover("remove-child/removed")
        k.prove("remove-child/name-was-known", has)
        k.prove("remove-child/gone", k.m(X.o, "get_child", x) is None)
        same_children(k, X, "remove-child", x)
    else:
        k.prove("remove-child/rejected-only-if-unknown", z3.Not(has))
        same_children(k, X, "remove-child/rejected")


# ------------------------------------------------------------------ adding and removing at paths

def add_at(k):
    """add_child_at: the path x leads to the child, x/r to what the sub-tree x was given at r; everything
    else stays. A path that is occupied or leads through a leaf is rejected, and nothing changes"""
    X = Content(k, "MTreeNode")
    X.remember()
    c = opaque(k, ["metadata.Metadata", "mtreenode.MTreeNode"][k.choose(2)])
    below = []
    fails = k.bool("rejected_below")

    def contract(it, s):
        o = s["self"]
        if o is X.o:
            return it.call_body(it.class_attr(it.lookup_class(T), "add_child_at"), [o],
                                {"child": s["child"], "path": s["path"]})
        below.append((o, s["child"], s["path"]))
        if fails and o.meta.get("fam") is not None:
            it.throw("ValueError", "rejected")       # a new tree has no occupied path
    k.it.contracts[f"{T}.add_child_at"] = contract
    one = k.bool("one_element")
    x, p = name_first(k, z3.Empty(SeqS) if one else None)
    rest = k.path("rest").term if one else p.term.arg(1)
    if not one:
        k.assume(z3.Length(rest) > 0)
    has, i = X.D.index(x)
    a = k.attempt(lambda: k.m(X.o, "add_child_at", c, p))
    if one:
        k.prove("add/not-below", not below)
        if a.ok:
            k.cover("add/leaf")
            k.prove("add/path-was-free", z3.Not(has))
            k.prove("add/found", k.m(X.o, "get_child", x) is c)
            same_children(k, X, "add", x)
        else:
            k.cover("add/occupied")
            k.prove("add/rejected-only-if-occupied", has)
            k.prove("add/rejected-with-ValueError", k.is_exc(a.exc, "ValueError"), why(k, a))
            X.unchanged("add/occupied")
        return
    k.prove("add/at-most-one-sub-tree", len(below) <= 1)
    for o, ch, q in below:
        k.prove("add/same-child-below", ch is c)
        k.prove("add/rest-of-the-path", k.eq(q, PathV(rest)))
    n = k.m(X.o, "get_child", x)
    if k.branch(has):
        old = X.D.child(i)
        tree = k.branch(X.D.is_tree(i))
        k.prove("add/existing-child-is-kept", n is old)
        if tree:
            k.cover("add/below-a-tree")
            k.prove("add/given-to-the-sub-tree", len(below) == 1 and below[0][0] is old)
            k.prove("add/result-of-the-sub-tree", a.ok != fails, why(k, a))
        else:
            k.cover("add/below-a-leaf")
            k.prove("add/below-a-leaf-is-rejected", not a.ok and not below)
        k.prove("add/rejected-with-ValueError", a.ok or k.is_exc(a.exc, "ValueError"), why(k, a))
        if not a.ok:
            X.unchanged("add/below")
    else:
        k.cover("add/new-sub-tree")
        k.prove("add/succeeds", a.ok, why(k, a))
        k.prove("add/new-sub-tree", n is not None and n.cls.name == "MTreeNode" and n.meta.get("fam") is None)
        k.prove("add/given-to-the-new-sub-tree", len(below) == 1 and below[0][0] is n)
        if n is not None:
            k.prove("add/new-sub-tree-is-empty", k.m(n, "get_child", k.name("other")) is None)
            k.prove("add/new-sub-tree-has-the-same-leaves", k.get(n, "leaf_class") is k.get(X.o, "leaf_class"))
            k.prove("add/new-sub-tree-is-unsaved", k.get(n, "reference") is None and k.eq(
                k.call(k.it.builtins["len"], k.get(n, "saved_on")), 0))
    same_children(k, X, "add/others", x)


def remove_at(k):
    """remove_child_at removes exactly the last element of the path from the tree that contains it"""
    k.ext.install_path_contract()
    t = k.new("mtreenode.MTreeNode", k.cls("metadata.Metadata"))
    found = k.new("mtreenode.MTreeNode", k.cls("metadata.Metadata"))
    asked = []
    k.it.contracts[f"{T}.get_object_at_path"] = lambda it, s: (asked.append(("get", s["self"], s["path"])), found)[1]
    k.it.contracts[f"{T}.remove_child"] = lambda it, s: (asked.append(("del", s["self"], s["child_name"])), None)[1]
    x = k.name("last_element")
    head = k.path("containing_path").term
    p = PathV(z3.Concat(head, z3.Unit(x)))
    tree = k.choose(2)
    if tree:
        d = k.new("datasettree.DatasetTree")
        k.ctx.put(d, "mtree", t)
        a = k.attempt(lambda: k.m(d, "delete_subtree", p))
    else:
        a = k.attempt(lambda: k.m(t, "remove_child_at", p))
    k.prove("remove/succeeds", a.ok, why(k, a))
    k.prove("remove/one-lookup-one-removal", [q[0] for q in asked] == ["get", "del"])
    if len(asked) == 2:
        k.prove("remove/from-the-tree", asked[0][1] is t and asked[1][1] is found)
        k.prove("remove/containing-path", k.eq(asked[0][2], PathV(head)))
        k.prove("remove/last-element", k.eq(asked[1][2], x))


# ------------------------------------------------------------------ iteration

class Listing:
    """contract of get_paths_recursive for sub-trees: the paths and leaves of sub-tree i"""

    def __init__(self, k, X):
        self.k = k
        self.t = k.srct("sub_paths", 1)
        u = k.uid()
        self.path = z3.Function(f"sub_path@{u}", I, I, SeqS)
        self.leaves = k.fam("sub_leaf", "metadata.Metadata", {}, 2)
        v = k.var()
        k.ctx.ufact(X.D.src.t, (v,), (v,), self.t.nfun(v) >= 0)
        self.asked = []

        def contract(it, s):
            o = s["self"]
            if o is X.o:
                return it.call_body(it.class_attr(it.lookup_class(T), "get_paths_recursive"), [o],
                                    {"show_intermediate": s["show_intermediate"]})
            self.asked.append(s["show_intermediate"])
            i = o.meta["idx"][0]
            j = k.var("j")
            return HList([Comp(Src(self.t, [i]), j, [(z3.BoolVal(True), (Lit(
                (PathV(self.path(i, j)), self.at(i, j))),))], None, True)])
        k.it.contracts[f"{T}.get_paths_recursive"] = contract

    def at(self, *t):
        return self.k.generic(self.leaves, *t) if any(self.k.ctx.bound(x) for x in t) else self.k.member(self.leaves, *t)


def iteration(k):
    """get_paths_recursive yields each leaf once with its full path; a tree that was not loaded is released"""
    from pyvc import loops
    from .c02 import listing
    X = Content(k, "MTreeNode")
    L = Listing(k, X)
    X.remember()
    show = k.bool("show_intermediate")
    api = k.choose(2)
    t = k.new("filetree.FileTree", X.o) if api else X.o
    a = k.attempt(lambda: listing(k, k.m(t, "get_paths_recursive", show)))
    k.prove("iteration/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("iteration/same-request", all(k.eq(q, show) is True for q in L.asked))
    purged = [o for m, o, _ in X.E.calls if m == "purge"]
    k.prove("iteration/released-if-it-was-not-loaded", purged == ([] if X.loaded else [X.o]))
    k.prove("iteration/only-loaded-and-released", all(m in ("read_in", "purge") for m, _, _ in X.E.calls))
    s = k.ctx.get(X.o, "saved_on")
    k.prove("iteration/saved-state", s is X.realms.set and k.ctx.peek(s, "segs") == X.segs[0])
    segs = list(k.ctx.get(a.value, "segs"))
    if show:
        first = segs.pop(0) if segs and isinstance(segs[0], Lit) else None
        k.prove("iteration/itself-first", first is not None and bi.conj(
            [k.eq(first.v[0], PathV(z3.Empty(SeqS))), first.v[1] is X.o]))
    k.prove("iteration/one-pass", len(segs) == 1 and isinstance(segs[0], Comp) and segs[0].src.t is X.D.src.t
            and segs[0].limit is None)
    if len(segs) != 1 or not isinstance(segs[0], Comp):
        return
    i = k.ctx.skolem(X.D.src, "i")
    tree = k.branch(X.D.is_tree(i))
    inner = loops.comp_at(k.it, segs[0], i)
    x = X.D.name(i)
    if not tree:
        k.cover("iteration/leaf")
        k.prove("iteration/leaf-once", len(inner) == 1 and isinstance(inner[0], Lit))
        if len(inner) == 1 and isinstance(inner[0], Lit):
            k.prove("iteration/leaf", bi.conj([k.eq(inner[0].v[0], PathV(z3.Unit(x))), inner[0].v[1] is X.D.child(i)]))
        return
    k.cover("iteration/tree")
    k.prove("iteration/one-pass-over-the-sub-tree", len(inner) == 1 and isinstance(inner[0], Comp)
            and inner[0].src.t is L.t and k.ctx.entails(inner[0].src.params[0] == i) and inner[0].limit is None)
    if len(inner) == 1 and isinstance(inner[0], Comp):
        j = k.ctx.skolem(Src(L.t, [i]), "j")
        lits = loops.comp_at(k.it, inner[0], j)
        k.prove("iteration/sub-leaf-once", len(lits) == 1 and isinstance(lits[0], Lit))
        if len(lits) == 1 and isinstance(lits[0], Lit):
            p, o = lits[0].v
            k.prove("iteration/sub-path", k.eq(p, PathV(z3.Concat(z3.Unit(x), L.path(i, j)))))
            k.prove("iteration/sub-leaf", o is L.at(i, j))


# ------------------------------------------------------------------ file trees and dataset trees

class Nodes:
    """a tree under contract: what its functions were asked; get_object_at_path finds nothing, a leaf or a tree"""

    def __init__(self, k, cls, leaf):
        k.ext.install_path_contract()
        self.k = k
        self.tree = k.new("mtreenode.MTreeNode", k.cls(leaf))
        self.o = k.new(cls, self.tree)
        self.asked = []
        self.leaf = opaque(k, leaf)
        self.loaded = []
        self.kind = k.choose(3)
        self.found = [None, self.leaf, k.new("mtreenode.MTreeNode", k.cls(leaf))][self.kind]
        self.fails = False
        for m in ("get_object_at_path", "add_child_at", "remove_child_at"):
            k.it.contracts[f"{T}.{m}"] = (lambda m: lambda it, s: self.call(m, it, s))(m)
        for m in ("ensure_mapped", "read_in"):
            k.it.contracts[f"{MO}.{m}"] = lambda it, s: self.loaded.append(s["self"])

    def call(self, m, it, s):
        self.asked.append((m, s["self"], s["path"], s.get("child")))
        if m == "get_object_at_path":
            return self.found
        if self.fails:
            it.throw("ValueError", "rejected")

    def was_asked(self, label, *calls):
        k = self.k
        k.prove(f"{label}/calls", [q[0] for q in self.asked] == [m for m, _, _ in calls])
        if len(self.asked) == len(calls):
            for (m, o, p, c), (_, want, child) in zip(self.asked, calls):
                k.prove(f"{label}/{m}", o is self.tree and c is child)
                k.prove(f"{label}/{m}-path", k.eq(p, want))


def root_of(p):
    return PathV(z3.Concat(p.term, z3.Unit(z3.StringVal(ROOT_RECORD))))


def file_tree(k):
    """FileTree: metadata at a path"""
    M = "metadata.Metadata"
    N = Nodes(k, "filetree.FileTree", M)
    x, p = name_first(k)
    c = k.choose(4)
    if c == 0:
        m = opaque(k, M)
        N.fails = k.bool("rejected")
        a = k.attempt(lambda: k.m(N.o, "add_metadata", p, m))
        k.prove("file-tree/add", a.ok != N.fails)
        N.was_asked("file-tree/add", ("add_child_at", p, m))
    elif c == 1:
        a = k.attempt(lambda: k.m(N.o, "get_metadata", p))
        N.was_asked("file-tree/get", ("get_object_at_path", p, None))
        if N.kind < 2:
            k.prove("file-tree/get", a.ok and a.value is N.found and N.loaded == [N.found][:N.kind])
        else:
            k.prove("file-tree/directory-is-not-metadata", not a.ok)
    elif c == 2:
        r = k.truth(bi.contains(k.it, N.o, p))
        k.prove("file-tree/contains", r == (N.found is not None))
        N.was_asked("file-tree/contains", ("get_object_at_path", p, None))
    else:
        runs = []

        def add(it, s):
            runs.append((s["self"], [s[n] for n in (
                "time_stamp", "extractor_name", "author_name", "author_email", "configuration", "metadata_content")]))
        k.it.contracts["dataladmetadatamodel.metadata.Metadata.add_extractor_run"] = add
        args = [k.val("time"), k.str("extractor"), k.str("author"), k.str("email"), opaque(
            k, "metadata.ExtractorConfiguration"), k.val("content")]
        a = k.attempt(lambda: k.m(N.o, "add_extractor_run", p, *args))
        if N.kind == 2:
            k.prove("file-tree/no-run-for-a-directory", not a.ok and not runs)
            return
        k.prove("file-tree/run-is-added", a.ok and len(runs) == 1 and all(
            x is y for x, y in zip(runs[0][1], args)), why(k, a))
        if len(runs) != 1:
            return
        m = runs[0][0]
        if N.kind == 1:
            k.prove("file-tree/run-is-added-to-the-metadata", m is N.leaf)
            N.was_asked("file-tree/run", ("get_object_at_path", p, None))
        else:
            k.prove("file-tree/new-metadata", m.cls.name == "Metadata" and m is not N.leaf)
            N.was_asked("file-tree/run", ("get_object_at_path", p, None), ("add_child_at", p, m))


def dataset_tree(k):
    """DatasetTree: the record of a dataset at a path"""
    R = "metadatarootrecord.MetadataRootRecord"
    N = Nodes(k, "datasettree.DatasetTree", R)
    x, p = name_first(k)
    if k.bool("root_dataset"):
        p = PathV(z3.Empty(SeqS))
    c = k.choose(5)
    if c == 0:
        m = opaque(k, R)
        N.fails = k.bool("rejected")
        a = k.attempt(lambda: k.m(N.o, "add_dataset", p, m))
        k.prove("dataset-tree/add", a.ok != N.fails)
        N.was_asked("dataset-tree/add", ("add_child_at", root_of(p), m))
    elif c == 1:
        a = k.attempt(lambda: k.m(N.o, "get_metadata_root_record", p))
        N.was_asked("dataset-tree/get", ("get_object_at_path", root_of(p), None))
        if N.kind < 2:
            k.prove("dataset-tree/get", a.ok and a.value is N.found and N.loaded == [N.found][:N.kind])
        else:
            k.prove("dataset-tree/tree-is-not-a-record", not a.ok)
    elif c == 2:
        r = k.truth(bi.contains(k.it, N.o, p))
        k.prove("dataset-tree/contains", r == (N.found is not None))
        N.was_asked("dataset-tree/contains", ("get_object_at_path", root_of(p), None))
    elif c == 3:
        sub = k.new("mtreenode.MTreeNode", k.cls(R))
        N.fails = k.bool("rejected")
        a = k.attempt(lambda: k.m(N.o, "add_subtree", k.new("datasettree.DatasetTree", sub), p))
        k.prove("dataset-tree/add-subtree", a.ok != N.fails)
        N.was_asked("dataset-tree/add-subtree", ("add_child_at", p, sub))
    else:
        a = k.attempt(lambda: k.m(N.o, "delete_subtree", p))
        k.prove("dataset-tree/delete-subtree", a.ok)
        N.was_asked("dataset-tree/delete-subtree", ("remove_child_at", p, None))


def dataset_paths(k):
    """dataset_paths: exactly the records, each with the path of its dataset"""
    from pyvc import loops
    R = "metadatarootrecord.MetadataRootRecord"
    k.ext.install_path_contract()
    tree = k.new("mtreenode.MTreeNode", k.cls(R))
    d = k.new("datasettree.DatasetTree", tree)
    src = k.src("tree_paths")
    u = k.uid()
    head = z3.Function(f"tree_path_head@{u}", I, SeqS)
    last = z3.Function(f"tree_path_last@{u}", I, S)
    leaves = k.fam("tree_leaf", R, {})
    v = k.var()
    l = HList([Comp(src, v, [(z3.BoolVal(True), (Lit((PathV(z3.Concat(head(v), z3.Unit(last(v)))),
                                                     k.generic(leaves, v))),))], None, True)])
    asked = []
    k.it.contracts[f"{T}.get_paths_recursive"] = lambda it, s: (asked.append((s["self"], s["show_intermediate"])), l)[1]
    a = k.attempt(lambda: k.get(d, "dataset_paths"))
    k.prove("dataset-paths/succeeds", a.ok, why(k, a))
    k.prove("dataset-paths/of-the-tree", len(asked) == 1 and asked[0][0] is tree and not asked[0][1])
    if not a.ok:
        return
    segs = k.ctx.get(a.value, "segs")
    k.prove("dataset-paths/one-pass", len(segs) == 1 and isinstance(segs[0], Comp) and segs[0].src.t is src.t
            and segs[0].limit is None)
    i = k.ctx.skolem(src, "i")
    lits = loops.comp_at(k.it, segs[0], i)
    if k.branch(last(i) == z3.StringVal(ROOT_RECORD)):
        k.cover("dataset-paths/record")
        k.prove("dataset-paths/record-once", len(lits) == 1)
        if len(lits) == 1:
            p, o = lits[0].v
            k.prove("dataset-paths/path", k.eq(p, PathV(head(i))))
            k.prove("dataset-paths/record", o is k.member(leaves, i))
    else:
        k.cover("dataset-paths/other")
        k.prove("dataset-paths/nothing-else", not lits)


HARNESSES = [lookup, children, add_child, remove_child, add_at, remove_at, iteration, file_tree, dataset_tree,
             dataset_paths, c01.tree_node]
