"""C02 Modification tracking"""
import z3
from pyvc import builtins_ as bi, loops

from pyvc.core import B, HList, Lit, PathV, SeqS

from .common import configuration, why
from .state import CLASSES, REF, Content, Object, any_class, name_first, opaque, per_class


def saved(k):
    """an object is saved on a realm only if it was saved there, all its sub-objects are saved
    there and none of them has moved"""
    X = Object(k, any_class(k))
    d = k.str("destination")
    c = X.children
    if not k.bool("mapped"):
        k.ctx.put(X.o, "mapped", False)
        r = k.truth(k.m(X.o, "is_saved_on", d))
        k.prove("saved/unmapped", bi.boolterm(r) == X.realms.has(d))
        return
    X.remember()
    r = k.truth(k.m(X.o, "is_saved_on", d))
    if k.branch(bi.boolterm(r)):
        k.cover("saved/yes")
        i = k.ctx.skolem(c.src, "i")
        k.prove("saved/was-saved", X.realms.has(d))
        k.prove("saved/sub-objects-are-saved", c.saved(i, d))
        k.prove("saved/sub-objects-did-not-move", z3.And(X.old.src.n == c.src.n, X.old.same(c.locations, i)))
    else:
        k.cover("saved/no")
    X.unchanged("saved", "saved_on", "saved_sub_object_locations", "mapped", "realm", "reference")


def saved_if(k):
    """... and it is saved there in this case"""
    X = Object(k, any_class(k))
    d = k.str("destination")
    c = X.children
    k.assume(X.realms.has(d))
    X.all_saved_on(d)
    k.assume(X.old.src.n == c.src.n)
    v = k.var()
    k.ctx.ufact(c.src.t, (v,), (v,), X.old.same(c.locations, v))
    k.prove("saved-if", bi.boolterm(k.truth(k.m(X.o, "is_saved_on", d))))


def write_out(k):
    """writing: the stored content and reference are the current ones; it is skipped only if they are stored already"""
    cls = any_class(k)
    X = Object(k, cls)
    o = X.o
    mapped = k.bool("mapped")
    realm = k.realm("current_realm") if not mapped or k.bool("has_realm") else None
    ref = k.new(REF, "X", k.str("current_location")) if not mapped or k.bool("has_reference") else None
    for n, v in (("mapped", mapped), ("realm", realm), ("reference", ref)):
        k.ctx.put(o, n, v)
    where = k.choose(3)
    dest = [None, k.realm("destination"), k.remote("remote")][where]
    force = k.bool("force")
    fails = k.bool("mapping_fails")
    new = k.new(REF, "X", k.str("new_location"))
    asked = []

    def outcome(m, s):
        asked.append((m, s))
        if fails:
            k.it.throw("OSError", "mapping failed")
        X.replaced(s["realm"])
        return new
    X.mapper(outcome)
    X.remember()
    question = []
    answer = k.ctx.fresh("is_saved", B)

    def first(s):
        question.append(s["destination"])
        return answer
    if mapped:
        X.own_is_saved_on = first
    target = dest if dest is not None else realm
    a = k.attempt(lambda: k.m(o, "write_out", dest, "git", force))
    everything = ("saved_on", "saved_sub_object_locations", "mapped", "realm", "reference")
    X.own_is_saved_on = None
    if target is None:
        k.prove("write/no-destination-is-rejected", not a.ok and not asked)
        X.unchanged("write/rejected", *everything)
        return
    if not mapped:
        k.cover("write/not-loaded")
        saved = k.branch(X.realms.has(target))
        k.prove("write/not-loaded-saved", a.ok == saved and not asked)
        k.prove("write/not-loaded-reference", not a.ok or a.value is ref)
        X.unchanged("write/not-loaded", *everything)
        return
    if where == 2:
        k.cover("write/remote")
        k.prove("write/remote-is-rejected", not a.ok and not asked and k.is_exc(a.exc, "RuntimeError"))
        X.unchanged("write/remote", *everything)
        return
    if not asked:
        k.cover("write/skipped")
        k.prove("write/skipped-only-if-saved", z3.And(answer, *[bi.boolterm(k.eq(q, target)) for q in question]))
        k.prove("write/skipped-not-forced", not force)
        k.prove("write/skipped-reference", a.ok and a.value is ref)
        k.prove("write/skipped-realm", a.ok and k.eq(k.ctx.get(o, "realm"), target))
        X.unchanged("write/skipped", "saved_on", "saved_sub_object_locations", "mapped", "reference")
        return
    k.cover("write/written")
    k.prove("write/once", len(asked) == 1 and asked[0][0] == "map_out")
    m, s = asked[0]
    k.prove("write/the-object", s["mappable_object"] is o)
    k.prove("write/the-destination", k.eq(s["realm"], target))
    k.prove("write/force", k.eq(s["force_write"], force))
    if fails:
        k.prove("write/failure-is-reported", not a.ok)
        X.unchanged("write/failed", *everything)
        return
    k.prove("write/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("write/reference", a.value is new and k.ctx.get(o, "reference") is new)
    k.prove("write/realm", k.eq(k.ctx.get(o, "realm"), target))
    k.prove("write/still-mapped", k.ctx.get(o, "mapped") is True)
    k.prove("write/saved", bi.boolterm(k.truth(k.m(o, "is_saved_on", target))))
    e = k.str("elsewhere")
    k.assume(e != target)
    if k.branch(bi.boolterm(bi.contains(k.it, k.ctx.get(o, "saved_on"), e))):
        k.cover("write/saved-elsewhere")
        k.prove("write/elsewhere-was-saved", X.realms.has(e))
        k.prove("write/elsewhere-same-reference",
                ref is None or k.eq(k.get(new, "location"), k.get(ref, "location")))
        i = k.ctx.skolem(X.children.src, "i")
        k.prove("write/elsewhere-same-locations", z3.And(
            X.old.src.n == X.children.src.n, X.old.same(X.children.locations, i)))


def read_in(k):
    """reading an object from its realm makes neither the object nor its sub-objects count as modified"""
    cls = any_class(k)
    X = Object(k, cls)
    o = X.o
    mapped = k.bool("mapped")
    realm = k.realm("current_realm")
    none = k.bool("none_reference")
    right = k.bool("class_matches")
    ref = k.new(REF, cls if right else "other", "*None*" if none else k.ext.fresh_hash())
    for n, v in (("mapped", mapped), ("realm", realm), ("reference", ref)):
        k.ctx.put(o, n, v)
    fails = k.bool("mapping_fails")
    asked = []

    def outcome(m, s):
        asked.append((m, s))
        if fails:
            k.it.throw("OSError", "mapping failed")
        X.replaced(s["realm"])
    X.mapper(outcome)
    X.remember()
    entry = ["read_in", "ensure_mapped"][k.choose(2)]
    a = k.attempt(lambda: k.m(o, entry))
    X.unchanged("read", "saved_on", "realm", "reference")
    if mapped:
        k.cover("read/already-loaded")
        k.prove("read/already-loaded", a.ok and not asked and a.value is (o if entry == "read_in" else False))
        X.unchanged("read/already-loaded", "mapped", "saved_sub_object_locations")
        return
    if none:
        k.prove("read/none-reference", a.ok == right and not asked)
        k.prove("read/none-reference-loaded", k.ctx.get(o, "mapped") is a.ok)
        return
    k.prove("read/refused-if-not-saved", a.ok or bool(asked) or not k.branch(X.realms.has(realm)))
    if not asked:
        k.prove("read/not-loaded", not a.ok and k.ctx.get(o, "mapped") is False)
        return
    k.prove("read/only-if-saved", X.realms.has(realm))
    m, s = asked[0]
    k.prove("read/once", len(asked) == 1 and m == "map_in" and s["mappable_object"] is o and s["reference"] is ref)
    k.prove("read/realm", k.eq(s["realm"], realm))
    k.prove("read/failure-is-reported", a.ok != fails)
    if not a.ok:
        k.prove("read/failed-is-not-loaded", k.ctx.get(o, "mapped") is False)
        return
    k.cover("read/loaded")
    k.prove("read/loaded", k.ctx.get(o, "mapped") is True and a.value is (o if entry == "read_in" else True))
    k.prove("read/still-saved", bi.boolterm(k.truth(k.m(o, "is_saved_on", realm))))


def at(k, segs, i):
    """the literal elements of a list, and those of its comprehensions at some indices"""
    out = []
    for s in segs:
        if isinstance(s, Lit):
            out.append(s.v)
        elif i and not s.src.params or i and k.ctx.entails(s.src.params[0] == i[0]):
            n = len(s.src.params)
            out += at(k, loops.comp_at(k.it, s, i[n]), i) if len(i) > n else []
    return out


def _parts(k, cls):
    """the sub-objects that decide whether an object is saved are all its parts, and nothing else"""
    X = Content(k, cls, loaded=True)
    o = X.o
    l = listing(k, k.get(o, "modifiable_sub_objects"))
    if cls in ("Text", "Metadata"):
        k.prove("parts/none", k.eq(k.call(k.it.builtins["len"], l), 0))
        return
    if cls == "MetadataRootRecord":
        want = [x for x in (X.dlm, X.ft) if x is not None]
        have = [s.v for s in k.ctx.get(l, "segs")]
        k.prove("parts/all", all(any(x is y for y in have) for x in want))
        k.prove("parts/only", k.eq(k.call(k.it.builtins["len"], l), len(want)))
        return
    if cls == "MTreeNode":
        i = (k.ctx.skolem(X.D.src, "i"),)
        x = X.D.child(*i)
    elif cls == "UUIDSet":
        i = (k.ctx.skolem(X.D.src, "i"),)
        x = k.member(X.D.lists, *i)
    else:
        i = X.D.some()
        x = X.D.element(*i)
    k.prove("parts/all", any(x is y for y in at(k, k.ctx.get(l, "segs"), i)))
    if cls == "UUIDSet":
        k.prove("parts/number", k.eq(k.call(k.it.builtins["len"], l), X.D.src.n))


def elements(k, cls):
    return opaque(k, {"VersionList": "metadatarootrecord.MetadataRootRecord", "TreeVersionList": "datasettree.DatasetTree",
                      "UUIDSet": "versionlist.VersionList", "MTreeNode": "metadata.Metadata"}[cls])


def modify(k, X):
    """one operation that changes the object"""
    cls, o = X.cls, X.o
    if cls == "Metadata":
        c, _, _ = configuration(k)
        k.it.contracts["dataladmetadatamodel.metadata.MetadataInstanceSet.add_metadata_instance"] = lambda it, s: None
        return lambda: k.m(o, "add_extractor_run", k.val("time") if k.bool("time_given") else None, k.str("extractor"),
                           k.str("author"), k.str("email"), c, k.val("content"))
    if cls == "MetadataRootRecord":
        n = k.choose(4)
        x = opaque(k, "filetree.FileTree" if n < 2 else "metadata.Metadata") if n != 3 else None
        if n == 0:
            return lambda: k.m(o, "set_file_tree", x)
        if n == 1:
            return lambda: k.it.setattr(o, "file_tree", x)
        return lambda: k.m(o, "set_dataset_level_metadata", x)
    if cls in ("VersionList", "TreeVersionList"):
        n = "set_dataset_tree" if cls[0] == "T" and k.bool("tree_mutator") else "set_versioned_element"
        again = k.choose(3) if X.loaded else 0
        if again == 0:
            return lambda: k.m(o, n, k.str("version"), k.str("time"), k.path("prefix"), elements(k, cls))
        # an element that is already present: with another time stamp, or at another place
        D = X.D
        i, j = D.some()
        e = D.element(i, j)
        k.cover("modified/again")
        if again == 1:
            t = k.str("other_time")
            k.assume(t != D.time(i, j))
            return lambda: k.m(o, n, D.version(i), t, PathV(D.path(i, j)), e)
        v, p = k.str("version"), k.path("prefix")
        k.assume(z3.Or(v != D.version(i), p.term != D.path(i, j)))
        return lambda: k.m(o, n, v, k.str("time"), p, e)
    if cls == "UUIDSet":
        if not X.loaded or k.bool("other_list"):
            return lambda: k.m(o, "set_version_list", k.uuid(), elements(k, cls))
        # a list that is already present, for another identifier
        i = k.ctx.skolem(X.D.src, "i")
        u = k.uuid()
        k.assume(u.term != X.D.uuid(i))
        k.cover("modified/again")
        return lambda: k.m(o, "set_version_list", u, k.member(X.D.lists, i))
    n = k.choose(2)
    if n == 0:
        return lambda: k.m(o, "add_child", k.name("new_name"), elements(k, cls))
    return lambda: k.m(o, "remove_child", k.name("old_name"))


def _modified(k, cls):
    """after an operation that changes an object it counts as unsaved everywhere"""
    X = Content(k, cls)
    X.remember()
    a = k.attempt(modify(k, X))
    if a.ok:
        k.cover("modified")
        X.is_unsaved("modified/unsaved")
    elif cls != "MTreeNode":
        k.prove("modified/succeeds", False, why(k, a))


def added_at(k):
    """adding a leaf at a path makes the tree count as unsaved, at whatever depth it is added"""
    X = Content(k, "MTreeNode")
    T = "dataladmetadatamodel.mtreenode.MTreeNode"
    fails = k.bool("rejected_below")

    def below(it, s):
        o = s["self"]
        if o is X.o:
            return it.call_body(it.class_attr(it.lookup_class(T), "add_child_at"), [o],
                                {"child": s["child"], "path": s["path"]})
        if fails:
            it.throw("ValueError", "rejected")
        X.modified.append(o)
    k.it.contracts[f"{T}.add_child_at"] = below
    kind = k.choose(3)
    x, p = name_first(k)
    if kind == 2 and k.bool("root"):
        p = PathV(z3.Empty(SeqS))
    X.remember()
    if kind == 0:
        a = k.attempt(lambda: k.m(X.o, "add_child_at", elements(k, "MTreeNode"), p))
    elif kind == 1:
        t = k.new("filetree.FileTree", X.o)
        a = k.attempt(lambda: k.m(t, "add_metadata", p, elements(k, "MTreeNode")))
    else:
        k.ctx.put(X.o, "leaf_class", k.cls("metadatarootrecord.MetadataRootRecord"))
        t = k.new("datasettree.DatasetTree", X.o)
        a = k.attempt(lambda: k.m(t, "add_dataset", p, opaque(k, "metadatarootrecord.MetadataRootRecord")))
    if a.ok:
        k.cover("added")
        X.is_unsaved("added/unsaved")
    else:
        k.prove("added/rejection-is-ValueError", k.is_exc(a.exc, "ValueError"), why(k, a))


def listing(k, x):
    l = HList()
    bi.list_extend(k.it, l, x)
    return l


def read(k, X):
    """one operation that only reads"""
    cls, o = X.cls, X.o
    if cls == "Metadata":
        n = k.choose(4)
        if n == 0:
            return lambda: k.m(o, "extractor_runs_for_extractor", k.str("extractor"))
        if n == 1:
            return lambda: k.m(o, "to_json") if X.loaded else None
        return lambda: listing(k, k.get(o, ["extractors", "extractor_runs"][n - 2]))
    if cls == "MetadataRootRecord":
        n = k.choose(3)
        if n == 2:
            return lambda: k.get(o, "file_tree")
        return lambda: k.m(o, ["get_file_tree", "get_dataset_level_metadata"][n])
    if cls in ("VersionList", "TreeVersionList"):
        n = k.choose(7)
        if n == 0:
            return lambda: k.call(k.it.builtins["len"], o)
        if n < 3:
            return lambda: listing(k, k.m(o, ["versions", "versions_and_prefix_paths"][n - 1]))
        if n == 3:
            return lambda: listing(k, k.get(o, "versioned_elements"))
        v, p = k.str("version"), k.path("prefix")
        tree = cls[0] == "T" and k.bool("tree_accessor")
        if n == 4:
            return lambda: k.m(o, "get_dataset_tree" if tree else "get_versioned_element", v, p)
        if n == 5:
            return lambda: listing(k, k.m(o, "get_dataset_trees" if tree else "get_versioned_elements", v))
        return lambda: listing(k, k.m(o, "_get_version_records", v))
    if cls == "UUIDSet":
        if k.bool("uuids"):
            return lambda: listing(k, k.m(o, "uuids"))
        return lambda: k.m(o, "get_version_list", k.uuid())
    if cls == "MTreeNode":
        n = k.choose(5)
        x, p = name_first(k)
        if n < 2:
            return lambda: k.m(o, ["get_child", "contains_child"][n], x)
        if n == 2:
            return lambda: k.m(o, "get_object_at_path", PathV(z3.Unit(x)))
        t = k.new("filetree.FileTree", o)
        if n == 3:
            return lambda: k.m(t, "get_metadata", PathV(z3.Unit(x)))
        return lambda: bi.contains(k.it, t, PathV(z3.Unit(x)))
    raise NotImplementedError(cls)


def _readers(k, cls):
    """reading never makes an object count as modified, changes nothing and discards nothing"""
    X = Content(k, cls)
    X.remember()
    a = k.attempt(read(k, X))
    X.unchanged("readers")
    if X.loaded:
        k.prove("readers/still-loaded", k.ctx.get(X.o, "mapped") is True)
    k.prove("readers/parts-are-only-loaded", all(m == "read_in" for m, _, _ in X.E.calls))
    if not a.ok:
        # get_metadata of a directory is refused
        k.prove("readers/error", k.is_exc(a.exc, "KeyError", "AssertionError"), why(k, a))


HARNESSES = [saved, saved_if, write_out, read_in] +  per_class(globals(), _parts) + per_class(globals(), _modified, "Text") + [added_at] + per_class(globals(), _readers, "Text")
