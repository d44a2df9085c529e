"""C09 Everything that was saved stays reachable: what is recorded when objects are written, what a flush of the
object references publishes, and how entries are added to the reference store"""
import z3
from pyvc import builtins_ as bi, loops
from pyvc.core import B, Comp, DSet, HDict, HList, HSet, I, Lit, Obj, S, Src
from pyvc.gitmodel import Git, match, needs_quote

from .c01 import Writer, child, load, save
from .common import InstanceSets, VersionLists, comp, events, why
from .state import REF

PKG = "dataladmetadatamodel"
OR = "mapper.gitmapper.objectreference"
TU = "mapper.gitmapper.treeupdater"
SP = f"{PKG}.mapper.gitmapper.gitbackend.subprocess"


class Recorded:
    """an arbitrary set of recorded objects: for i < n: (type(i), hash(i))"""

    def __init__(self, k, name="recorded"):
        self.k = k
        self.tree = None
        u = k.uid()
        self.src = k.src(name)
        self.is_tree = z3.Function(f"{name}_is_tree@{u}", I, B)
        self.hash = k.invertible(f"{name}_hash", 1, S)
        k.injective(self.hash, self.src)
        k.ctx.tables.setdefault("nosep_decl", {})[self.hash.name()] = " \t\n\"/"
        k.ctx.tables.setdefault("len_decl", {})[self.hash.name()] = 40
        i = k.var()
        k.ctx.ufact(self.src.t, (i,), (i,), z3.Length(self.hash(i)) == 40)
        et = k.cls(f"{TU}.EntryType")
        self.type = {True: k.get(et, "Directory"), False: k.get(et, "File")}

    def set(self):
        v = self.k.var()
        return HSet([Comp(self.src, v, [(self.is_tree(v), (Lit((self.type[True], self.hash(v))),)),
                                        (z3.Not(self.is_tree(v)), (Lit((self.type[False], self.hash(v))),))], None, True)])


def state(k):
    return k.it.module(f"{PKG}.{OR}")


def flush(k):
    """what flush_object_references publishes, and when; there is no legacy store, or it was converted before"""
    flush_body(k, ())


def flush_legacy_trees(k):
    """likewise with a legacy store of trees"""
    flush_body(k, ("LEGACY_TREES",))


def flush_legacy_blobs(k):
    """likewise with a legacy store of blobs"""
    flush_body(k, ("LEGACY_BLOBS",))


def flush_both_legacy_stores(k):
    """likewise with both legacy stores, if the entries are added and published without error"""
    flush_body(k, ("LEGACY_TREES", "LEGACY_BLOBS"))


def flush_body(k, present):
    k.ext.install_path_contract()
    r = k.realm()
    p = k.call(k.it.module("pathlib").slots["Path"], r)
    text = k.call(k.it.builtins["str"], p)
    et = k.cls(f"{TU}.EntryType")
    mod = state(k)
    R = Recorded(k)
    recorded = k.truth(k.bool("something_is_recorded"))
    if recorded:
        k.ctx.put(mod, "cached_object_references", R.set())
    n = R.src.n if recorded else z3.IntVal(0)
    store = ("readable", "unreadable", "absent")[k.choose(3) if len(present) < 2 else 0]
    names = {e: k.get(k.get(k.get(k.it.module(f"{PKG}.{OR}"), "GitReference"), e), "value")
             for e in ("OBJECT_REFERENCES", "LEGACY_TREES", "LEGACY_BLOBS")}
    k.prove("flush/one-store", bi.conj([bi.neg(k.eq(names["OBJECT_REFERENCES"], names[x])) for x in ("LEGACY_TREES", "LEGACY_BLOBS")]))
    # legacy stores
    checked = not present and k.truth(k.bool("legacy_stores_were_checked"))
    if checked:
        k.ctx.put(mod, "checked_legacy_stores", HSet([Lit(p)]))
    legacy = {}
    for e, tree in (("LEGACY_TREES", True), ("LEGACY_BLOBS", False)):
        if e in present:
            legacy[e] = (tree, Recorded(k, e.lower()))
            legacy[e][1].tree = tree

    def ls_tree(it, s):
        k.prove("flush/legacy-store-of-the-realm", k.eq(s["repo_dir"], text))
        for e, (tree, L) in legacy.items():
            if k.truth(k.eq(s["object_reference"], names[e])):
                v = k.var()
                return HList([comp(L.src, v, Lit(bi.concat(it, [
                    "040000 tree " if tree else "100644 blob ", L.hash(v), "\t", L.hash(v)])))])
        it.throw("RuntimeError", "no legacy store")
    k.it.contracts[f"{SP}.git_ls_tree"] = ls_tree
    existing = HList()

    def get_dir(it, s):
        k.prove("flush/store-of-the-realm", k.eq(s["repo"], p))
        k.prove("flush/store", k.eq(s["object_hash"], names["OBJECT_REFERENCES"]))
        if store != "readable":
            it.throw("RuntimeError", "cat-file")
        return existing

    def exists(it, s):
        k.prove("flush/probe", bi.conj([k.eq(s["repo_dir"], text), k.eq(s["ref_name"], names["OBJECT_REFERENCES"])]))
        return store != "absent"
    tree = k.ext.fresh_hash("tree")

    def add_paths(it, s):
        k.ext.event("add")
        k.prove("flush/realm", k.eq(s["repo"], p))
        k.prove("flush/existing-entries-are-kept", s["root_entries"] is existing if store == "readable" else (
            store == "absent" and k.truth(k.eq(k.call(k.it.builtins["len"], s["root_entries"]), 0))))
        sets = [("recorded", R)] * recorded + [(e, L) for e, (_, L) in legacy.items()]
        for name, X in sets:
            added(k, f"flush/{name}", s["path_infos"], X, [Y for _, Y in sets])
        if len(present) < 2 and k.bool("conflict"):
            it.throw("ValueError", "conflict")
        return tree

    def update_ref(it, s):
        k.prove("flush/published-tree", bi.conj([k.eq(s["repo_dir"], text), k.eq(s["ref_name"], names["OBJECT_REFERENCES"]),
                                                 k.eq(s["location"], tree)]))
        k.prove("flush/published-after-it-is-stored", len(events(k, "add")) > 0)
        if len(present) < 2 and k.bool("publish_fails"):
            it.throw("RuntimeError", "update-ref")
        k.ext.event("publish")

    def delete_ref(it, s):
        k.prove("flush/deleted-in-the-realm", k.eq(s["repo_dir"], text))
        mine = [e for e in legacy if k.truth(k.eq(s["ref_name"], names[e]))]
        k.prove("flush/only-converted-stores-are-deleted", len(mine) == 1)
        if len(mine) == 1:
            k.cover("flush/legacy-deleted")
            # nothing to publish if the legacy store has no entry
            k.prove("flush/published-before-legacy-stores-are-deleted",
                    len(events(k, "publish")) == 1 or legacy[mine[0]][1].src.n == 0)
        if k.bool("delete_fails"):
            it.throw("RuntimeError", "update-ref -d")
    k.it.contracts.update({
        f"{PKG}.{TU}._get_dir": get_dir, f"{PKG}.{TU}.add_paths": add_paths, f"{SP}.git_reference_exists": exists,
        f"{SP}.git_update_ref": update_ref, f"{SP}.git_delete_ref": delete_ref})
    for m in ("lock_backend", "unlock_backend"):
        k.it.contracts[f"{PKG}.mapper.gitmapper.utils.{m}"] = lambda it, s: None
    a = k.attempt(lambda: k.call(k.func(f"{OR}.flush_object_references"), p))
    published = len(events(k, "publish"))
    k.prove("flush/published-at-most-once", published <= 1)
    total = n
    for _, L in legacy.values():
        total = total + L.src.n
    if a.ok:
        k.cover("flush/success")
        k.prove("flush/everything-is-published", z3.Or(total == 0, published == 1))
    elif not published:
        # nothing is lost
        k.cover("flush/failure")
        now = k.ctx.get(mod, "cached_object_references")
        if recorded and k.branch(n > 0):
            i = k.ctx.skolem(R.src, "i")
            x = (R.type[k.branch(R.is_tree(i))], R.hash(i))
            k.prove("flush/still-recorded", bi.contains(k.it, now, x))
    if store == "unreadable":
        k.prove("flush/unreadable-store-is-not-replaced", not published)


def added(k, label, infos, X, all):
    """every object of X is added, at a path derived from its hash"""
    def one():
        if not k.branch(X.src.n > 0):
            return
        i = k.ctx.skolem(X.src, "i")
        t = k.branch(X.is_tree(i)) if X.tree is None else X.tree
        x = info_of(k, infos, X, i)
        if x is None:
            for Y in all:
                if Y is not X:
                    j = z3.simplify(k.ctx.tables["inv"][Y.hash.name()](X.hash(i)))
                    k.ctx.register(Y.src, j)
                    same = (Y.is_tree(j) if t else z3.Not(Y.is_tree(j))) if Y.tree is None else Y.tree is t
                    if x is None and same is not False and k.branch(bi.conj([
                            k.ctx.in_range(Y.src, j), Y.hash(j) == X.hash(i), same])):
                        x = info_of(k, infos, Y, j)
        k.prove(f"{label}/is-added", x is not None)
        if x is None:
            return
        k.prove(f"{label}/hash", k.eq(k.get(x, "object_hash"), X.hash(i)))
        k.prove(f"{label}/type", k.eq(k.get(x, "type"), X.type[t]))
        e = bi.to_pylist(k.it, k.get(x, "elements"))
        k.prove(f"{label}/path", z3.Concat(*[bi.term(y) for y in e]) == X.hash(i))
        k.prove(f"{label}/path-length", len(e) == 4 and bi.conj([k.eq(z3.Length(bi.term(y)), 3) for y in e[:3]]))
    k.split(one)


def info_of(k, infos, X, i):
    from pyvc import loops
    for s in k.ctx.get(infos, "segs"):
        if isinstance(s, Comp) and s.src.t is X.src.t and s.limit is None:
            lits = loops.comp_at(k.it, s, i)
            if len(lits) == 1:
                return lits[0].v


# ------------------------------------------------------------------ adding paths to a tree

class Paths:
    """path infos with the same number of elements: for i < n: e1(i)/../eL(i) -> (type(i), hash(i)), different paths"""

    def __init__(self, k, length):
        self.k = k
        u = k.uid()
        self.length = length
        self.src = k.src("infos")
        if length == 1:
            self.e = [k.invertible("element", 1, S)]
            k.injective(self.e[0], self.src)
        else:
            self.e = [z3.Function(f"element{n}@{u}", I, S) for n in range(length)]
        self.is_tree = z3.Function(f"info_is_tree@{u}", I, B)
        self.hash = z3.Function(f"info_hash@{u}", I, S)
        i = k.var()
        k.ctx.ufact(self.src.t, (i,), (i,), z3.Length(self.hash(i)) == 40)
        et = k.cls(f"{TU}.EntryType")
        self.type = {True: k.get(et, "Directory"), False: k.get(et, "File")}
        self.fam = {t: k.fam("info", f"{TU}.PathInfo", {
            "elements": lambda i: HList([Lit(bi.untrm(f(i))) for f in self.e]), "object_hash": self.hash,
            "type": lambda i, t=t: self.type[t]}) for t in (True, False)}

    def list(self):
        v = self.k.var()
        return HList([Comp(self.src, v, [(self.is_tree(v), (Lit(self.k.generic(self.fam[True], v)),)),
                                         (z3.Not(self.is_tree(v)), (Lit(self.k.generic(self.fam[False], v)),))])])


class Entries:
    """the entries of an existing directory: for j < n: name(j) -> (type(j), hash(j))"""

    def __init__(self, k, name="entry"):
        self.k = k
        u = k.uid()
        self.src = k.src(name)
        self.name = k.invertible(f"{name}_name", 1, S)
        k.injective(self.name, self.src)
        self.is_tree = z3.Function(f"{name}_is_tree@{u}", I, B)
        self.hash = z3.Function(f"{name}_hash@{u}", I, S)
        i = k.var()
        k.ctx.ufact(self.src.t, (i,), (i,), z3.Length(self.hash(i)) == 40)
        et = k.cls(f"{TU}.EntryType")
        self.type = {True: k.get(et, "Directory"), False: k.get(et, "File")}
        self.fam = {t: k.fam(name, f"{TU}.DirEntry", {
            "name": self.name, "object_hash": self.hash, "type": lambda i, t=t: self.type[t]}) for t in (True, False)}

    def list(self):
        v = self.k.var()
        return HList([Comp(self.src, v, [(self.is_tree(v), (Lit(self.k.generic(self.fam[True], v)),)),
                                         (z3.Not(self.is_tree(v)), (Lit(self.k.generic(self.fam[False], v)),))])])


    def has(self, name):
        """(formula, index): is there an entry of this name?"""
        j = z3.simplify(self.k.ctx.tables["inv"][self.name.name()](name))
        self.k.ctx.register(self.src, j)
        return z3.And(self.k.ctx.in_range(self.src, j), self.name(j) == name), j


def add_leaves(k):
    """adding paths of one element to a directory"""
    add_paths(k, 1)


def add_nested_2(k):
    """adding paths of two elements to a directory: the sub-directories are handled by recursive calls, taken by
    contract (induction over the number of elements)"""
    add_paths(k, 2)


def add_nested_3(k):
    """likewise with three elements"""
    add_paths(k, 3)


def add_nested_4(k):
    """likewise with four elements, the length of the paths of object references"""
    add_paths(k, 4)


class Calls:
    """the recursive calls"""

    def __init__(self, k):
        self.k = k
        self.calls = HList()

    def add(self, infos, entries, tree):
        bi.list_append(self.k.it, self.calls, Obj("call", {"infos": infos, "entries": entries, "tree": tree}))

    def find(self, tree):
        """the call that returned this tree"""
        k = self.k
        for c in k.ctx.get(self.calls, "segs"):
            for g, (seg,) in c.alts:
                idx = match(bi.term(k.ctx.get(seg.v, "tree")), c.var, bi.term(tree))
                if idx is None:
                    continue
                k.ctx.register(c.src, idx)
                if k.branch(z3.And(k.ctx.in_range(c.src, idx), bi.boolterm(k.ctx.subst(g, c.var, idx)))):
                    return k.ctx.subst(seg.v, c.var, idx)


def add_paths(k, length):
    k.ext.install_path_contract()
    r = k.realm()
    p = k.call(k.it.module("pathlib").slots["Path"], r)
    P = Paths(k, length)
    R = Entries(k)
    tree = k.ext.fresh_hash("tree")
    out = []
    calls = Calls(k)
    sub = {}

    def write_dir(it, s):
        k.prove("add/realm", k.eq(s["repo"], p))
        k.prove("add/written-once", not out)
        out.append(s["entries"].d)
        return tree

    def get_dir(it, s):
        """the entries of a sub-directory; known by its hash"""
        k.prove("add/read-from-the-realm", k.eq(s["repo"], p))
        return HList([Lit(Obj("entries-of", {"hash": s["object_hash"]}))])

    def recurse(it, s):
        k.prove("add/recurse/realm", k.eq(s["repo"], p))
        h = k.ext.fresh_hash("sub_tree")
        calls.add(s["path_infos"], s["root_entries"], h)
        if k.bool("conflict_below"):
            it.throw("ValueError", "conflict")
        return h
    k.it.contracts[f"{PKG}.{TU}._write_dir"] = write_dir
    k.it.contracts[f"{PKG}.{TU}._get_dir"] = get_dir
    f = k.func(f"{TU}.add_paths")
    infos, entries = P.list(), R.list()
    if length > 1:
        k.it.contracts[f"{PKG}.{TU}.add_paths"] = recurse
    a = k.attempt(lambda: k.it.call_body(f, [p, infos, entries], {}))
    if not a.ok:
        k.cover("add/conflict")
        k.prove("add/only-conflicts-fail", k.is_exc(a.exc, "ValueError"))
        k.prove("add/nothing-is-written-on-failure", not out)
        return
    k.cover("add/success")
    k.prove("add/result", k.eq(a.value, tree))
    k.prove("add/written", len(out) == 1)
    d = out[0]
    k.split(lambda: new_path(k, P, R, d, calls))
    k.split(lambda: old_entry(k, P, R, d, calls))
    k.split(lambda: no_other(k, P, R, d))


def entry(k, d, name):
    has, e = loops.dict_get(k.it, d, name)
    return e if has else None


def new_path(k, P, R, d, calls):
    """each new path leads to its object"""
    i = k.ctx.skolem(P.src, "i")
    t = k.branch(P.is_tree(i))
    e = entry(k, d, P.e[0](i))
    k.prove("add/path-exists", e is not None)
    if e is None:
        return
    k.prove("add/name", k.eq(k.get(e, "name"), P.e[0](i)))
    if P.length == 1:
        k.prove("add/hash", k.eq(k.get(e, "object_hash"), P.hash(i)))
        k.prove("add/type", k.eq(k.get(e, "type"), P.type[t]))
        return
    k.prove("add/directory", k.eq(k.get(e, "type"), P.type[True]))
    c = calls.find(k.get(e, "object_hash"))
    k.prove("add/sub-tree-is-written", c is not None)
    if c is None:
        return
    # the call got the rest of the path, and only paths of this length
    x = info_of(k, k.get(c, "infos"), P, i)
    k.prove("add/sub-path-is-added", x is not None)
    if x is not None:
        rest = bi.to_pylist(k.it, k.get(x, "elements"))
        k.prove("add/sub-path", len(rest) == P.length - 1 and bi.conj([k.eq(y, f(i)) for y, f in zip(rest, P.e[1:])]))
        k.prove("add/sub-path-hash", k.eq(k.get(x, "object_hash"), P.hash(i)))
        k.prove("add/sub-path-type", k.eq(k.get(x, "type"), P.type[t]))


def old_entry(k, P, R, d, calls):
    """existing entries stay, unless they are on a new path"""
    if not k.branch(R.src.n > 0):
        return
    j = k.ctx.skolem(R.src, "j")
    t = k.branch(R.is_tree(j))
    e = entry(k, d, R.name(j))
    k.prove("add/existing-entry-is-kept", e is not None)
    if e is None:
        return
    k.prove("add/existing-name", k.eq(k.get(e, "name"), R.name(j)))
    k.prove("add/existing-type", k.eq(k.get(e, "type"), R.type[t]))
    same = k.eq(k.get(e, "object_hash"), R.hash(j))
    if k.branch(bi.boolterm(same)):
        return
    if P.length == 1:
        i = z3.simplify(k.ctx.tables["inv"][P.e[0].name()](R.name(j)))
        k.ctx.register(P.src, i)
        k.prove("add/existing-hash", z3.And(k.ctx.in_range(P.src, i), P.e[0](i) == R.name(j),
                                            bi.term(k.get(e, "object_hash")) == P.hash(i)))
        return
    # replaced by a tree that was made from the entries of the existing one
    c = calls.find(k.get(e, "object_hash"))
    k.prove("add/existing-directory-is-extended", c is not None)
    if c is not None:
        l = [s.v for s in k.ctx.get(k.get(c, "entries"), "segs") if isinstance(s, Lit)]
        k.prove("add/existing-entries-are-passed-on", len(l) == 1 and k.eq(k.get(l[0], "hash"), R.hash(j)))


def no_other(k, P, R, d):
    """there are no other entries, and no other paths are added"""
    x = k.str("name")
    if entry(k, d, x) is None:
        return
    v = k.var()
    firsts = HList([comp(P.src, v, Lit(bi.untrm(P.e[0](v))))])
    k.prove("add/no-other-entries", bi.disj([R.has(x)[0], loops.list_contains(k.it, firsts, x)]))


# ------------------------------------------------------------------ directories of the store

def directories(k):
    """a directory that is written is read back with the same entries; errors of git are not hidden"""
    k.ext.install_path_contract()
    k.it.contracts.clear()
    g = Git(k, faults=True)
    r = k.realm()
    p = k.call(k.it.module("pathlib").slots["Path"], r)
    text = k.call(k.it.builtins["str"], p)
    R = Entries(k)
    for f in (R.name, R.hash):
        k.ctx.tables.setdefault("nosep_decl", {})[f.name()] = " \t\n\"/"
    k.ctx.tables.setdefault("len_decl", {})[R.hash.name()] = 40
    v = k.var()
    k.ctx.ufact(R.src.t, (v,), (v,), z3.And(z3.Length(R.name(v)) > 0, z3.Not(needs_quote(R.name(v)))))
    a = k.attempt(lambda: k.call(k.func(f"{TU}._write_dir"), p, R.list()))
    failed = len(events(k, "gitfail"))
    k.prove("directory/write-fails-iff-git-fails", a.ok == (failed == 0))
    if not a.ok:
        return
    k.prove("directory/is-stored", g.find(text, a.value) is not None)
    b = k.attempt(lambda: k.call(k.func(f"{TU}._get_dir"), p, a.value))
    failed = len(events(k, "gitfail"))
    k.prove("directory/read-fails-iff-git-fails", b.ok == (failed == 0))
    if not b.ok:
        return
    k.cover("directory/read")

    def one():
        if not k.branch(R.src.n > 0):
            return
        j = k.ctx.skolem(R.src, "j")
        t = k.branch(R.is_tree(j))
        l = [s for s in k.ctx.get(b.value, "segs") if isinstance(s, Comp) and s.src.t is R.src.t]
        k.prove("directory/entries", len(l) == 1)
        e = [x.v for x in loops.comp_at(k.it, l[0], j)] if len(l) == 1 else []
        k.prove("directory/entry", len(e) == 1)
        if len(e) == 1:
            k.prove("directory/name", k.eq(k.get(e[0], "name"), R.name(j)))
            k.prove("directory/hash", k.eq(k.get(e[0], "object_hash"), R.hash(j)))
            k.prove("directory/type", k.eq(k.get(e[0], "type"), R.type[t]))
    k.split(one)


# ------------------------------------------------------------------ recording

class Record:
    """the objects that are recorded for the next flush"""

    def __init__(self, k):
        self.k = k
        self.mod = state(k)
        k.ctx.put(self.mod, "cached_object_references", HSet())
        et = k.cls(f"{TU}.EntryType")
        self.type = {True: k.get(et, "Directory"), False: k.get(et, "File")}

    def has(self, tree, hash_):
        return bi.contains(self.k.it, self.k.ctx.get(self.mod, "cached_object_references"), (self.type[tree], hash_))

    def check(self, label, tree, hash_):
        k = self.k
        k.prove(f"{label}/is-recorded", self.has(tree, hash_))
        k.prove(f"{label}/recorded-with-its-type", bi.neg(bi.boolterm(self.has(not tree, hash_))))

    def add(self, tree, hash_):
        k = self.k
        k.call(k.func(f"{OR}.add_{'tree' if tree else 'blob'}_reference"), hash_)


def is_object(k, h):
    k.assume(h != z3.StringVal("*None*"))
    return h


def reads(k, g):
    """the objects that are read while an object is loaded"""
    out = []
    show = g.find

    def find(realm, ref):
        out.append((realm, ref))
        return show(realm, ref)
    g.find = find
    return out


def recorded_metadata(k):
    """the content of written metadata, which is referenced from a blob only, is recorded"""
    g = Git(k)
    E = Writer(k)
    D = InstanceSets(k)
    T = Record(k)
    dest = k.realm()
    cached = k.bool("realm_is_cached")
    M = k.cls("mapper.gitmapper.metadatamapper.MetadataGitMapper")
    if cached:
        k.call(k.it.getattr(M, "cache_realm"), dest)
    o = k.new("metadata.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    a = save(k, E, o, dest)
    k.prove("metadata/write-succeeds", a.ok, why(k, a))
    if cached:
        b = k.attempt(lambda: k.call(k.it.getattr(M, "flush_realm"), dest))
        k.prove("metadata/flush-succeeds", b.ok, why(k, b))
    if not a.ok:
        return
    needed = reads(k, g)
    o2, b = load(k, E, "metadata.Metadata", dest, a.value)
    k.prove("metadata/load-succeeds", b.ok, why(k, b))
    parts = [h for _, h in needed if not k.branch(bi.boolterm(k.eq(h, k.get(a.value, "location"))))]
    k.prove("metadata/parts", len(parts) >= 1)
    for h in parts:
        k.cover("metadata/part")
        k.prove("metadata/realm", k.eq(needed[-1][0], dest))
        T.check("metadata/content", False, h)


def recorded_root_record(k):
    """both parts of a written metadata root record are recorded"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    T = Record(k)
    dest = k.realm()
    dlm = child(k, "metadata.Metadata", "dlm") if k.bool("has_dlm") else None
    ft = child(k, "filetree.FileTree", "ft") if k.bool("has_ft") else None
    h1, h2 = is_object(k, k.ext.fresh_hash("dlm")), is_object(k, k.ext.fresh_hash("ft"))
    # a blob and a tree
    k.assume(h1 != h2)
    ft_empty = ft is not None and k.truth(k.bool("file_tree_is_empty"))

    def write(o):
        if o is dlm:
            r = k.new(REF, "Metadata", h1)
        else:
            r = k.new(REF, "MTreeNode", "*None*" if ft_empty else h2)
        k.ctx.put(o, "reference", r)
        return r
    E.write = write
    if ft is not None:
        # the file tree records its tree, or the record does
        E.body.append(ft)
    o = k.new("metadatarootrecord.MetadataRootRecord", None, None, dlm, ft)
    a = save(k, E, o, dest)
    k.prove("record/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    if dlm is not None:
        k.cover("record/metadata")
        T.check("record/dataset-level-metadata", False, h1)
    if ft is not None and not ft_empty:
        k.cover("record/file-tree")
        T.check("record/file-tree", True, h2)


def recorded_version_list(k):
    """each element of a written version list is recorded"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    T = Record(k)
    D = VersionLists(k, "metadatarootrecord.MetadataRootRecord", split=True)
    E.write = D.write_child
    dest = k.realm()
    o = k.new("versionlist.VersionList")
    k.ctx.put(o, "version_set", D.outer)
    a = save(k, E, o, dest)
    k.prove("list/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return

    def one():
        hit = D.entry(k.str("version"), k.path("prefix"))
        if hit is not None:
            k.cover("list/element")
            e, t = hit
            T.check("list/element", False, is_object(k, e.loc(*t)))
    k.split(one)


def recorded_dataset_tree(k):
    """the tree of a written dataset tree is recorded"""
    E = Writer(k)
    Git(k)
    T = Record(k)
    dest = k.realm()
    h = is_object(k, k.ext.fresh_hash("tree"))
    mtree = k.new("mtreenode.MTreeNode", k.cls("metadatarootrecord.MetadataRootRecord"))
    empty = k.truth(k.bool("empty"))
    ref = k.new(REF, "MTreeNode", "*None*" if empty else h)

    def write(o):
        k.ctx.put(o, "reference", ref)
        return ref
    E.write = write
    o = k.new("datasettree.DatasetTree", mtree)
    E.body.append(o)
    a = k.attempt(lambda: k.m(o, "write_out", dest))
    k.prove("tree/write-succeeds", a.ok, why(k, a))
    if not empty:
        k.cover("tree/recorded")
        T.check("tree", True, h)


def recording(k):
    """an object is recorded with its type, and all that was recorded before stays so; a none-location is not"""
    mod = state(k)
    R = Recorded(k)
    k.ctx.put(mod, "cached_object_references", R.set())
    tree = k.truth(k.bool("tree"))
    h = k.str("hash")
    none = k.branch(k.eq(h, "*None*"))
    et = k.cls(f"{TU}.EntryType")
    t = k.get(et, "Directory" if tree else "File")
    a = k.attempt(lambda: k.call(k.func(f"{OR}.add_{'tree' if tree else 'blob'}_reference"), h))
    k.prove("record/no-error", a.ok, why(k, a))
    now = k.ctx.get(mod, "cached_object_references")
    if none:
        k.cover("record/none")
        k.prove("record/none-is-not-recorded", bi.neg(bi.boolterm(bi.contains(k.it, now, (t, "*None*")))))
    else:
        k.cover("record/object")
        k.prove("record/is-recorded", bi.contains(k.it, now, (t, h)))
    if k.branch(R.src.n > 0):
        i = k.ctx.skolem(R.src, "i")
        k.prove("record/others-stay", bi.contains(k.it, now, (R.type[k.branch(R.is_tree(i))], R.hash(i))))


ADD = [add_leaves, add_nested_2, add_nested_3, add_nested_4, directories]
RECORD = [recorded_metadata, recorded_root_record, recorded_version_list, recorded_dataset_tree, recording]
FLUSH = [flush, flush_legacy_trees, flush_legacy_blobs, flush_both_legacy_stores]
HARNESSES = {"C09": FLUSH + ADD + RECORD, "C10": FLUSH + [directories]}
