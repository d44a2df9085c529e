"""C05 Version lists and UUID sets behave like maps: contracts of VersionList,
TreeVersionList and UUIDSet, for any number of versions, prefix paths and
identifiers, loaded or not"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import Comp, DSet, HDict, HList, Lit, MISSING, Obj, PathV, Src

from . import c01
from .common import Elements, VersionLists, comp, why

V = "versionlist"
KINDS = [("VersionList", "metadatarootrecord.MetadataRootRecord"), ("TreeVersionList", "datasettree.DatasetTree")]


def setup(k, kinds=2):
    """an arbitrary version list, loaded or not"""
    k.ext.install_path_contract()
    kind, elem = KINDS[k.choose(kinds)]
    E = Elements(k)
    D = VersionLists(k, elem)
    vl = k.new(f"{V}.{kind}")
    if k.bool("loaded"):
        k.ctx.put(vl, "version_set", D.outer)
        k.ctx.put(vl, "saved_on", __import__("pyvc.core").core.HSet([Lit(k.str("somewhere"))]))
    else:
        k.ctx.put(vl, "realm", k.str("realm"))
        k.ctx.put(vl, "reference", k.new("mapper.reference.Reference", kind, k.ext.fresh_hash()))
        k.ctx.put(vl, "mapped", False)

        def read_in(s):
            if k.ctx.get(vl, "mapped") is False:
                k.ctx.put(vl, "version_set", D.outer)
                k.ctx.put(vl, "mapped", True)
            return vl
        E.own[id(vl)] = {"read_in": read_in}
    return kind, elem, E, D, vl


def get(k, kind, vl, v, p):
    n = "get_dataset_tree" if kind == "TreeVersionList" and k.bool("tree_accessor") else "get_versioned_element"
    return k.attempt(lambda: k.m(vl, n, v, p))


def is_entry(k, a, ts, p, e, label):
    k.prove(f"{label}/found", a.ok, why(k, a))
    if a.ok:
        k.prove(f"{label}/time-stamp", k.eq(a.value[0], ts))
        k.prove(f"{label}/prefix-path", k.eq(a.value[1], p))
        k.prove(f"{label}/element", a.value[2] is e)


def get_entry(k):
    """getting returns exactly the stored entry; an unknown key raises KeyError"""
    kind, elem, E, D, vl = setup(k)
    v, p = k.str("version"), k.path("prefix")
    has, i, j = D.lookup(v, p)
    a = get(k, kind, vl, v, p)
    if k.branch(has):
        k.cover("get/known")
        is_entry(k, a, D.time(i, j), p, k.member(D.elements, i, j), "get")
        k.prove("get/element-is-loaded", any(m == "read_in" and o is k.member(D.elements, i, j) for m, o, _ in E.calls))
    else:
        k.cover("get/unknown")
        k.prove("get/unknown-raises-KeyError", not a.ok and k.is_exc(a.exc, "KeyError"))


def set_entry(k):
    """setting an entry replaces only the entry with the same key"""
    kind, elem, E, D, vl = setup(k)
    v, p, ts = k.str("version"), k.path("prefix"), k.str("time")
    e = new_element(k, elem)
    n = "set_dataset_tree" if kind == "TreeVersionList" and k.bool("tree_mutator") else "set_versioned_element"
    a = k.attempt(lambda: k.m(vl, n, v, ts, p, e))
    k.prove("set/no-error", a.ok, why(k, a))
    k.prove("set/modified", k.eq(k.call(k.it.builtins["len"], k.get(vl, "saved_on")), 0))
    # the same key
    if k.bool("same_key"):
        is_entry(k, get(k, kind, vl, v, p), ts, p, e, "set/get")
        return
    v2, p2 = k.str("version2"), k.path("prefix2")
    k.assume(z3.Or(v2 != v, p2.term != p.term))
    has, i, j = D.lookup(v2, p2)
    a = get(k, kind, vl, v2, p2)
    if k.branch(has):
        k.cover("set/other-known")
        is_entry(k, a, D.time(i, j), p2, k.member(D.elements, i, j), "set/other")
    else:
        k.cover("set/other-unknown")
        k.prove("set/other-still-unknown", not a.ok and k.is_exc(a.exc, "KeyError"))


def new_element(k, elem):
    e = Obj(k.cls(elem), {"mapped": True, "reference": None, "realm": None, "$new": True})
    return e


def unget_entry(k):
    """writing and releasing one element changes no entry"""
    kind, elem, E, D, vl = setup(k)
    v, p, dest = k.str("version"), k.path("prefix"), k.str("destination")
    has, i, j = D.lookup(v, p)
    n = "unget_dataset_tree" if kind == "TreeVersionList" and k.bool("tree_accessor") else "unget_versioned_element"
    a = k.attempt(lambda: k.m(vl, n, v, p, dest))
    if not k.branch(has):
        k.prove("unget/unknown-raises-KeyError", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    k.cover("unget")
    k.prove("unget/no-error", a.ok, why(k, a))
    e = k.member(D.elements, i, j)
    calls = [(m, o) for m, o, _ in E.calls if m in ("write_out", "purge")]
    k.prove("unget/written-then-purged", [m for m, _ in calls] == ["write_out", "purge"] and all(o is e for _, o in calls))
    w = [s for m, _, s in E.calls if m == "write_out"]
    k.prove("unget/destination", len(w) == 1 and k.eq(w[0].get("destination_realm", w[0].get("destination")), dest))
    v2, p2 = k.str("version2"), k.path("prefix2")
    has, i, j = D.lookup(v2, p2)
    a = get(k, kind, vl, v2, p2)
    if k.branch(has):
        is_entry(k, a, D.time(i, j), p2, k.member(D.elements, i, j), "unget/other")
    else:
        k.prove("unget/other-unknown", not a.ok and k.is_exc(a.exc, "KeyError"))


def listing(k, x):
    l = HList()
    bi.list_extend(k.it, l, x)
    return l


def enumerates(k, label, l, D, expected):
    """the list holds expected(i, j) for every entry (i, j) exactly once, and nothing else"""
    segs = [s for s in k.ctx.get(l, "segs") if not (isinstance(s, Comp) and not s.alts)]
    ok = len(segs) == 1 and isinstance(segs[0], Comp) and segs[0].src.t is D.src.t and segs[0].limit is None
    k.prove(f"{label}/one-pass-over-the-versions", ok)
    if not ok:
        return
    i = k.ctx.skolem(D.src, "i")
    inner = at(k, segs[0], i)
    ok = len(inner) == 1 and isinstance(inner[0], Comp) and inner[0].src.t is D.inner_t \
        and k.ctx.entails(inner[0].src.params[0] == i) and inner[0].limit is None
    k.prove(f"{label}/one-pass-over-the-paths", ok)
    if not ok:
        return
    j = k.ctx.skolem(inner[0].src, "j")
    lits = at(k, inner[0], j)
    k.prove(f"{label}/each-entry-once", len(lits) == 1 and isinstance(lits[0], Lit))
    if len(lits) == 1:
        k.prove(f"{label}/entry", expected(i, j, lits[0].v))


def at(k, c, t):
    from pyvc import loops
    return loops.comp_at(k.it, c, t)


def enumerations(k):
    """every enumeration reflects each entry exactly once; the size is their number"""
    kind, elem, E, D, vl = setup(k)
    c = k.choose(4)
    if c == 0:
        enumerates(k, "versions", listing(k, k.m(vl, "versions")), D, lambda i, j, x: k.eq(x, D.version(i)))
    elif c == 1:
        enumerates(k, "versions_and_prefix_paths", listing(k, k.m(vl, "versions_and_prefix_paths")), D,
                   lambda i, j, x: k.eq(x, (D.version(i), PathV(D.path(i, j)))))
    elif c == 2:
        enumerates(k, "versioned_elements", listing(k, k.get(vl, "versioned_elements")), D,
                   lambda i, j, x: bi.conj([k.eq(x[0], D.version(i)), k.eq(x[1][0], D.time(i, j)),
                                            k.eq(x[1][1], PathV(D.path(i, j))), x[1][2] is k.member(D.elements, i, j)]))
    else:
        n = k.call(k.it.builtins["len"], vl)
        v = k.var()
        from pyvc import loops
        total = loops.sum_(k.it, HList([comp(D.src, v, Lit(Src(D.inner_t, [v]).n))]), 0)
        k.prove("len/sum-of-the-entries", k.eq(n, total))


def get_all(k):
    """get_versioned_elements delivers exactly the entries of one version"""
    kind, elem, E, D, vl = setup(k)
    v = k.str("version")
    i = z3.simplify(k.ctx.tables["inv"][D.version.name()](v))
    k.ctx.register(D.src, i)
    has = z3.And(k.ctx.in_range(D.src, i), D.version(i) == v)
    n = "get_dataset_trees" if kind == "TreeVersionList" and k.bool("tree_accessor") else "get_versioned_elements"
    a = k.attempt(lambda: listing(k, k.m(vl, n, v)))
    if not k.branch(has):
        k.prove("get_all/unknown-raises-KeyError", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    k.prove("get_all/no-error", a.ok, why(k, a))
    if not a.ok:
        return
    segs = k.ctx.get(a.value, "segs")
    ok = len(segs) == 1 and isinstance(segs[0], Comp) and segs[0].src.t is D.inner_t and segs[0].limit is None
    k.prove("get_all/one-pass", ok)
    if not ok:
        return
    j = k.ctx.skolem(Src(D.inner_t, [i]), "j")
    lits = at(k, segs[0], j)
    k.prove("get_all/each-entry-once", len(lits) == 1)
    if len(lits) == 1:
        x = lits[0].v
        k.prove("get_all/entry", bi.conj([k.eq(x[0], D.time(i, j)), k.eq(x[1], PathV(D.path(i, j))),
                                          x[2] is k.member(D.elements, i, j)]))


# ---------------------------------------------------------------- UUIDSet

def uuid_setup(k):
    """an arbitrary UUID set: for i < n: uuid(i) -> list(i)"""
    k.ext.install_path_contract()
    E = Elements(k)
    src = k.src("uuids")
    uuid = k.invertible("uuid", 1)
    k.injective(uuid, src)
    lists = k.fam("lists", f"{V}.VersionList", {"mapped": True, "reference": None, "realm": None})
    i = k.var()
    d = HDict([comp(src, i, DSet(bi.UuidV(uuid(i)), k.generic(lists, i)))])
    us = k.new("uuidset.UUIDSet")
    if k.bool("loaded"):
        k.ctx.put(us, "uuid_set", d)
        k.ctx.put(us, "saved_on", __import__("pyvc.core").core.HSet([Lit(k.str("somewhere"))]))
    else:
        k.ctx.put(us, "realm", k.str("realm"))
        k.ctx.put(us, "reference", k.new("mapper.reference.Reference", "UUIDSet", k.ext.fresh_hash()))
        k.ctx.put(us, "mapped", False)

        def read_in(s):
            if k.ctx.get(us, "mapped") is False:
                k.ctx.put(us, "uuid_set", d)
                k.ctx.put(us, "mapped", True)
            return us
        E.own[id(us)] = {"read_in": read_in}

    def lookup(u):
        t = z3.simplify(k.ctx.tables["inv"][uuid.name()](u.term))
        k.ctx.register(src, t)
        return z3.And(k.ctx.in_range(src, t), uuid(t) == u.term), lambda: k.member(lists, t)
    return E, src, uuid, lists, us, lookup


def uuid_get(k):
    E, src, uuid, lists, us, lookup = uuid_setup(k)
    u = k.uuid()
    has, elem = lookup(u)
    a = k.attempt(lambda: k.m(us, "get_version_list", u))
    if k.branch(has):
        k.cover("uuid_get/known")
        k.prove("uuid_get/found", a.ok, why(k, a))
        k.prove("uuid_get/element", a.ok and a.value is elem())
        k.prove("uuid_get/loaded", [(m, o) for m, o, _ in E.calls] == [("read_in", elem())])
    else:
        k.cover("uuid_get/unknown")
        k.prove("uuid_get/unknown-raises-KeyError", not a.ok and k.is_exc(a.exc, "KeyError"))


def uuid_set_entry(k):
    E, src, uuid, lists, us, lookup = uuid_setup(k)
    u = k.uuid()
    e = Obj(k.cls(f"{V}.VersionList"), {"mapped": True, "reference": None, "realm": None})
    a = k.attempt(lambda: k.m(us, "set_version_list", u, e))
    k.prove("uuid_set/no-error", a.ok, why(k, a))
    k.prove("uuid_set/modified", k.eq(k.call(k.it.builtins["len"], k.get(us, "saved_on")), 0))
    u2 = k.uuid("other")
    a = k.attempt(lambda: k.m(us, "get_version_list", u2))
    if k.branch(u2.term == u.term):
        k.prove("uuid_set/get", a.ok and a.value is e)
        return
    has, elem = lookup(u2)
    if k.branch(has):
        k.prove("uuid_set/other", a.ok and a.value is elem())
    else:
        k.prove("uuid_set/other-unknown", not a.ok and k.is_exc(a.exc, "KeyError"))


def uuid_unget(k):
    E, src, uuid, lists, us, lookup = uuid_setup(k)
    u = k.uuid()
    has, elem = lookup(u)
    a = k.attempt(lambda: k.m(us, "unget_version_list", u))
    if not k.branch(has):
        k.prove("uuid_unget/unknown-raises-KeyError", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    k.prove("uuid_unget/no-error", a.ok, why(k, a))
    k.prove("uuid_unget/written-then-purged",
            [(m, o) for m, o, _ in E.calls] == [("write_out", elem()), ("purge", elem())])
    u2 = k.uuid("other")
    has, elem = lookup(u2)
    a = k.attempt(lambda: k.m(us, "get_version_list", u2))
    if k.branch(has):
        k.prove("uuid_unget/other", a.ok and a.value is elem())
    else:
        k.prove("uuid_unget/other-unknown", not a.ok and k.is_exc(a.exc, "KeyError"))


def uuid_enumeration(k):
    """uuids() are exactly the identifiers, each once"""
    E, src, uuid, lists, us, lookup = uuid_setup(k)
    view = k.m(us, "uuids")
    u = k.uuid()
    has, elem = lookup(u)
    k.prove("uuids/membership", bi.boolterm(bi.contains(k.it, view, u)) == has)
    k.prove("uuids/size", k.eq(k.call(k.it.builtins["len"], view), src.n))
    l = listing(k, view)
    segs = k.ctx.get(l, "segs")
    ok = len(segs) == 1 and isinstance(segs[0], Comp) and segs[0].src.t is src.t and segs[0].limit is None
    k.prove("uuids/one-pass", ok)
    if ok:
        i = k.ctx.skolem(src, "i")
        lits = at(k, segs[0], i)
        k.prove("uuids/each-once", len(lits) == 1 and k.eq(lits[0].v, bi.UuidV(uuid(i))))


HARNESSES = [get_entry, set_entry, unget_entry, enumerations, get_all, uuid_get, uuid_set_entry, uuid_unget,
             uuid_enumeration, c01.version_list, c01.tree_version_list, c01.uuid_set]
