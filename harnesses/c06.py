"""C06 One extractor run record per configuration, the latest wins: contracts of
MetadataInstanceSet, of Metadata and of their equality, for any number of
configurations and extractors"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import HSet, Lit

from .common import Elements, InstanceSets, Runs, configuration, param, record, why

M = "metadata"
MIS = "dataladmetadatamodel.metadata.MetadataInstanceSet"


def length(k, x):
    return k.call(k.it.builtins["len"], x)


def lookup(k, s, q):
    return k.attempt(lambda: k.m(s, "get_instance_for_configuration", q))


# ------------------------------------------------------------------ records of one extractor

def add_record(k):
    """adding a record changes the entry of its configuration only; the last one added is found"""
    D = Runs(k)
    conf = configuration(k)
    r, _ = record(k, "new", conf)
    a = k.attempt(lambda: k.m(D.set, "add_metadata_instance", r))
    k.prove("add/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    has, i = D.index(conf[1], conf[2])

    def one():
        q, v, p = configuration(k, "asked")
        a = lookup(k, D.set, q)
        if k.branch(z3.And(v == conf[1], p == conf[2])):
            k.cover("add/same-configuration")
            k.prove("add/latest-record-is-found", a.ok and a.value is r, why(k, a))
            return
        known, j = D.index(v, p)
        if k.branch(known):
            k.cover("add/other-configuration")
            k.prove("add/other-records-stay", a.ok and bi.identical(k.it, a.value, k.member(D.records, j)), why(k, a))
        else:
            k.cover("add/unknown-configuration")
            k.prove("add/unknown-configurations-have-no-record", not a.ok and k.is_exc(a.exc, "ValueError"))
    k.split(one)

    def counts():
        n = D.src.n if k.branch(has) else D.src.n + 1
        k.prove("add/one-configuration-each", k.eq(length(k, k.get(D.set, "configurations")), n))
        k.prove("add/one-record-each", k.eq(length(k, k.get(D.set, "instances")), n))
    k.split(counts)


def enumerate_records(k):
    """enumerating yields every record, and each record is at the index of its configuration"""
    D = Runs(k)
    seen = k.call(k.it.builtins["list"], D.set)

    def one():
        if not k.branch(D.src.n > 0):
            return
        i = k.ctx.skolem(D.src, "i")
        a = k.attempt(lambda: k.m(D.set, "get_instance_for_configuration_index", i))
        k.prove("enumerate/by-index", a.ok and bi.identical(k.it, a.value, k.member(D.records, i)), why(k, a))
        a = k.attempt(lambda: k.it.getitem(k.get(D.set, "configurations"), i))
        k.prove("enumerate/configuration", a.ok and bi.identical(k.it, a.value, k.member(D.confs, i)), why(k, a))
        a = k.attempt(lambda: k.it.getitem(seen, i))
        k.prove("enumerate/record", a.ok and bi.identical(k.it, a.value, k.member(D.records, i)), why(k, a))
    k.split(one)
    k.split(lambda: k.prove("enumerate/all", k.eq(length(k, seen), D.src.n)))
    c = k.get(D.set, "configurations")
    k.m(c, "append", configuration(k)[0])
    k.split(lambda: k.prove("enumerate/configurations-are-a-copy", k.eq(
        length(k, k.get(D.set, "configurations")), D.src.n)))


def initial_records(k):
    """the initial records are added in their order"""
    added = []
    k.it.contracts[f"{MIS}.add_metadata_instance"] = lambda it, s: added.append((s["self"], s["metadata_instance"]))
    rs = [record(k, f"r{n}")[0] for n in range(k.choose(4))]
    arg = k.list(*rs) if rs or k.bool("empty") else None
    s = k.new(f"{M}.MetadataInstanceSet", arg)
    k.prove("initial/added-in-order", len(added) == len(rs) and all(
        x is s and y is r for (x, y), r in zip(added, rs)))
    k.prove("initial/no-other", k.eq(length(k, k.get(s, "configurations")), 0))


# ------------------------------------------------------------------ equality

def configuration_equality(k):
    """configurations are equal exactly if version and parameters are equal"""
    a, v, p = configuration(k, "a")
    b, w, q = configuration(k, "b")
    e = bi.boolterm(k.eq(a, b))
    k.prove("equal/configuration", e == z3.And(v == w, p == q))


def record_equality(k):
    """records are equal exactly if all their parts are equal"""
    a, x = record(k, "a")
    b, y = record(k, "b")
    e = bi.boolterm(k.eq(a, b))
    c, d = x["configuration"], y["configuration"]
    same = [k.eq(x[n], y[n]) for n in x if n != "configuration"]
    same += [k.eq(k.get(c, "version"), k.get(d, "version")), k.eq(param(k, c), param(k, d))]
    k.prove("equal/record", e == bi.boolterm(bi.conj(same)))


def set_equality(k):
    """sets are equal exactly if they have the same configurations with equal records. (By the pigeonhole
    principle it is enough that all configurations of the first are found in the second and the numbers agree.)"""
    D1, D2 = Runs(k, "a"), Runs(k, "b")
    a = k.attempt(lambda: k.eq(D1.set, D2.set))
    k.prove("sets/comparison-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    if k.branch(bi.boolterm(a.value)):
        k.cover("sets/equal")
        k.prove("sets/same-number", D1.src.n == D2.src.n)

        def one():
            if not k.branch(D1.src.n > 0):
                return
            i = k.ctx.skolem(D1.src, "i")
            k.prove("sets/same-configurations-with-equal-records", same_at(D1, D2, i))
        k.split(one)
        return
    k.cover("sets/different")
    # if they were the same ...
    k.assume(D1.src.n == D2.src.n)
    i = k.var()
    known, j = D2.index(D1.version(i), D1.parameter(i))
    k.ctx.ufact(D1.src.t, (i,), (i,), same_at(D1, D2, i, j))
    for _, t in list(D1.src.t.slots["terms"]):
        k.ctx.register(D2.src, z3.simplify(D2.inverse(D1.version(*t), D1.parameter(*t))))
    k.prove("sets/only-different-sets-are-unequal", z3.BoolVal(False))


def same_at(D1, D2, i, j=None):
    """formula: the configuration i of D1 is known in D2 with an equal record"""
    if j is None:
        known, j = D2.index(D1.version(i), D1.parameter(i))
    else:
        known = z3.And(j >= 0, j < D2.src.n, D2.version(j) == D1.version(i), D2.parameter(j) == D1.parameter(i))
    return z3.And(known, *[getattr(D1, n)(i) == getattr(D2, n)(j) for n in ("time", "content", "author", "email")])


# ------------------------------------------------------------------ metadata

def setup(k):
    """arbitrary metadata, loaded or not"""
    k.ext.install_path_contract()
    E = Elements(k)
    D = InstanceSets(k)
    o = k.new(f"{M}.Metadata")
    if k.bool("loaded"):
        k.ctx.put(o, "instance_sets", D.dict)
        k.ctx.put(o, "saved_on", HSet([Lit(k.str("somewhere"))]))
    else:
        k.ctx.put(o, "realm", k.str("realm"))
        k.ctx.put(o, "reference", k.new("mapper.reference.Reference", "Metadata", k.ext.fresh_hash()))
        k.ctx.put(o, "mapped", False)
        k.ctx.put(o, "saved_on", HSet([Lit(k.get(o, "realm"))]))

        def read_in(s):
            if k.ctx.get(o, "mapped") is False:
                k.ctx.put(o, "instance_sets", D.dict)
                k.ctx.put(o, "mapped", True)
            return o
        E.own[id(o)] = {"read_in": read_in}
    return E, D, o


def runs(k, o, x):
    return k.attempt(lambda: k.m(o, "extractor_runs_for_extractor", x))


def add_run(k):
    """a run is added to the set of its extractor with the given content; other extractors stay the same;
    the metadata counts as unsaved"""
    E, D, o = setup(k)
    added = []
    k.it.contracts[f"{MIS}.add_metadata_instance"] = lambda it, s: added.append((s["self"], s["metadata_instance"]))
    x = k.str("extractor")
    conf = configuration(k)[0]
    time, author, email, content = k.opt(k.val("time_stamp"), "no_time_stamp"), k.str("author"), k.str("email"), k.val()
    if time is not None:
        k.assume(bi.neg(bi.identical(k.it, time, None)))
    a = k.attempt(lambda: k.m(o, "add_extractor_run", time, x, author, email, conf, content))
    k.prove("run/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("run/unsaved", z3.Not(bi.boolterm(bi.contains(k.it, k.get(o, "saved_on"), k.str("destination")))))
    k.prove("run/added-once", len(added) == 1)
    if len(added) != 1:
        return
    s, r = added[0]
    if time is None:
        k.cover("run/now")
        k.prove("run/has-a-time-stamp", k.get(r, "time_stamp") is not None)
    else:
        k.prove("run/time-stamp", k.eq(k.get(r, "time_stamp"), time))
    for n, v in (("author_name", author), ("author_email", email), ("metadata_content", content)):
        k.prove(f"run/{n}", k.eq(k.get(r, n), v))
    k.prove("run/configuration", k.eq(k.get(r, "configuration"), conf))

    def one():
        y = k.str("asked")
        b = runs(k, o, y)
        known, i = D.index(y)
        if k.branch(y == x):
            k.prove("run/set-is-found", b.ok and b.value is s, why(k, b))
            if k.branch(known):
                k.cover("run/known-extractor")
                k.prove("run/same-set", b.ok and bi.identical(k.it, b.value, k.member(D.sets, i)))
            else:
                k.cover("run/new-extractor")
                k.prove("run/new-set", s.meta.get("fam") is None and k.eq(length(k, k.get(s, "instances")), 0))
        elif k.branch(known):
            k.cover("run/other-extractor")
            k.prove("run/others-stay", b.ok and bi.identical(k.it, b.value, k.member(D.sets, i)), why(k, b))
        else:
            k.prove("run/unknown-extractor", not b.ok and k.is_exc(b.exc, "KeyError"))
    k.split(one)


def enumerate_runs(k):
    """extractors and extractor_runs yield exactly the extractors with their sets"""
    E, D, o = setup(k)
    x = k.str("extractor")
    known, i = D.index(x)
    names = k.call(k.it.builtins["list"], k.get(o, "extractors"))
    pairs = k.call(k.it.builtins["dict"], k.get(o, "extractor_runs"))
    k.split(lambda: k.prove("runs/extractors", bi.boolterm(bi.contains(k.it, names, x)) == known))
    k.split(lambda: k.prove("runs/number-of-extractors", k.eq(length(k, names), D.src.n)))

    def one():
        a = k.attempt(lambda: k.it.getitem(pairs, x))
        if k.branch(known):
            k.cover("runs/known")
            k.prove("runs/set", a.ok and bi.identical(k.it, a.value, k.member(D.sets, i)), why(k, a))
        else:
            k.prove("runs/no-other", not a.ok)
    k.split(one)


def metadata_equality(k):
    """metadata are equal exactly if they have the same extractors with equal sets"""
    D1, D2 = InstanceSets(k), InstanceSets(k)
    same = z3.Function(f"equal_sets@{k.uid()}", z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def eq(it, s):
        a, b = s["self"], s["other"]
        if a.meta.get("fam") is D1.sets and b.meta.get("fam") is D2.sets:
            return same(a.meta["idx"][0], b.meta["idx"][0])
        if a.meta.get("fam") is D2.sets and b.meta.get("fam") is D1.sets:
            return same(b.meta["idx"][0], a.meta["idx"][0])
        raise NotImplementedError("comparison")
    k.it.contracts[f"{MIS}.__eq__"] = eq
    o1, o2 = k.new(f"{M}.Metadata"), k.new(f"{M}.Metadata")
    k.ctx.put(o1, "instance_sets", D1.dict)
    k.ctx.put(o2, "instance_sets", D2.dict)
    a = k.attempt(lambda: k.eq(o1, o2))
    k.prove("metadata/comparison-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    if k.branch(bi.boolterm(a.value)):
        k.cover("metadata/equal")

        def one():
            x = k.str("extractor")
            h1, i = D1.index(x)
            h2, j = D2.index(x)
            k.prove("metadata/same-extractors", h1 == h2)
            k.prove("metadata/equal-sets", z3.Implies(z3.And(h1, h2), same(i, j)))
        k.split(one)
        return
    k.cover("metadata/different")
    i, j = k.var(), k.var()
    for X, Y, f in ((D1, D2, lambda i, j: same(i, j)), (D2, D1, lambda j, i: same(i, j))):
        v = k.var()
        g = k.ctx.tables["inv"][Y.name.name()]
        w = g(X.name(v))
        k.ctx.ufact(X.src.t, (v,), (v,), z3.And(w >= 0, w < Y.src.n, Y.name(w) == X.name(v), f(v, w)))
    k.assume(D1.src.n == D2.src.n)
    k.prove("metadata/only-different-metadata-are-unequal", z3.BoolVal(False))


HARNESSES = [add_record, enumerate_records, initial_records, configuration_equality, record_equality, set_equality,
             add_run, enumerate_runs, metadata_equality]
