"""Shared parts of the specifications: arbitrary containers and the contract of
mappable objects that containers rely on (proved for each class in C01-C03, C08)"""
import z3
from pyvc import builtins_ as bi
from pyvc.externals import needs_quote
from pyvc.core import B, Comp, DSet, HDict, HList, I, Lit, Obj, PathV, S, SeqS, Src, Val

PKG = "dataladmetadatamodel"
MO = f"{PKG}.mappableobject.MappableObject"
MP = f"{PKG}.mtreeproxy.MTreeProxy"
TRUE = z3.BoolVal(True)


def comp(src, var, *segs, guard=TRUE, injective=True):
    return Comp(src, var, [(guard, tuple(segs))], None, injective)


def why(k, a):
    from pyvc.harness import describe
    return "" if a.ok else f"raised {describe(k.it, a.exc)}"


class Elements:
    """Contract of MappableObject for objects that are used through it only:
    read_in returns the object, write_out returns a reference of the object's
    content, purge forgets it; each call is recorded"""

    def __init__(self, k, own=None):
        self.k = k
        self.calls = []
        self.own = own or {}        # id(object) -> {method: function}
        for m in ("read_in", "write_out", "purge", "deepcopy", "is_saved_on"):
            for c in (MO, MP):
                k.it.contracts[f"{c}.{m}"] = (lambda m, c: lambda it, s: self.call(m, it, s, c))(m, c)

    def call(self, m, it, s, cls=MO):
        o = s["self"]
        f = self.own.get(id(o), {}).get(m)
        if f == "body":
            fn = it.class_attr(it.lookup_class(cls), m)
            args = {k: v for k, v in s.items() if k != "self"}
            return it.call_body(fn, [o], args)
        if f is not None:
            return f(s)
        self.calls.append((m, o, s))
        if m == "read_in":
            return o
        if m == "write_out":
            return it.getattr(o, "reference")
        if m == "purge":
            return None
        raise NotImplementedError(m)


def part_state(k, name, reference, realm, arity=1):
    """the state of the parts of an object before they are written or copied: each is loaded or not; either all
    have a reference or none was saved before (k.unsaved_parts)"""
    if getattr(k, "unsaved_parts", False):
        return {"mapped": True, "realm": None, "reference": None}
    loaded = z3.Function(f"{name}_loaded@{k.uid()}", *[I] * arity, B)
    return {"mapped": lambda *t: loaded(*t), "realm": realm, "reference": reference}


class VersionLists:
    """an arbitrary version list: for i < n: version(i) -> for j < m(i): path(i, j) -> record(i, j).
    With split, the first entry of each version is described on its own (index 0 of the ghost view)"""

    def __init__(self, k, element_class, name="vl", nonempty_inner=True, split=False):
        self.k = k
        ctx = k.ctx
        u = k.uid()
        self.element_class = element_class
        self.version = k.invertible(f"{name}_version", 1, S)
        self.src = k.src(f"{name}_versions")
        k.injective(self.version, self.src)
        self.realm = k.str("element_realm")
        self.main = self.kind(f"{name}", 2)
        self.path, self.time = self.main.path, self.main.time
        self.records, self.elements = self.main.records, self.main.elements
        self.first = self.kind(f"{name}_first", 1) if split else None
        self.inner_t = k.srct(f"{name}_paths", 1)
        i, j = k.var(), k.var("j")
        inner = Src(self.inner_t, [i])
        g = ctx.tables["inv"][self.path.name()]
        ctx.ufact(self.inner_t, (i, j), (i, j), g(i, self.path(i, j)) == j)
        if split:
            ctx.ufact(self.inner_t, (i, j), (i, j), self.path(i, j) != self.first.path(i))
        # an inner dictionary is never empty
        if nonempty_inner and not split:
            ctx.ufact(self.src.t, (i,), (i,), self.inner_t.nfun(i) > 0)
        else:
            ctx.ufact(self.src.t, (i,), (i,), self.inner_t.nfun(i) >= 0)
        self.dicts = k.fam(f"{name}_dict", "dict", {"segs": self._inner_segs}, 1)
        v = k.var()
        self.outer = HDict([comp(self.src, v, DSet(self.version(v), k.generic(self.dicts, v)))])

    def kind(self, name, arity):
        """families of one kind of entries"""
        k = self.k
        e = type("Kind", (), {})()
        u = k.uid()
        ix = [I] * arity
        e.path = k.invertible(f"{name}_path", arity, SeqS) if arity > 1 else z3.Function(f"{name}_path@{u}", *ix, SeqS)
        e.time = z3.Function(f"{name}_time@{u}", *ix, S)
        e.before = z3.Function(f"{name}_before@{u}", *ix, S)
        e.loc = z3.Function(f"{name}_loc@{u}", *ix, S)
        cname = self.element_class.split(".")[-1]
        cref = "MTreeNode" if cname == "DatasetTree" else cname
        e.refs, e.after = (k.fam(f"{name}_{n}", "mapper.reference.Reference",
                                 {"class_name": cref, "location": (lambda f: lambda *t: f(*t))(f)}, arity)
                           for n, f in (("ref", e.before), ("after", e.loc)))
        slots = part_state(k, name, lambda *t: self.member(e.refs, *t), self.realm, arity)
        e.nodes = None
        if cname == "DatasetTree":
            e.nodes = k.fam(f"{name}_node", "mtreenode.MTreeNode", slots, arity)
            slots = {"mtree": lambda *t: self.member(e.nodes, *t)}
        e.elements = k.fam(f"{name}_elem", self.element_class, slots, arity)
        e.records = k.fam(f"{name}_rec", "versionlist.VersionRecord", {
            "time_stamp": lambda *t: e.time(*t),
            "prefix_path": lambda *t: PathV(e.path(*t)),
            "element": lambda *t: self.member(e.elements, *t)}, arity)
        return e

    def write_child(self, o):
        """contract of write_out for an element"""
        for e in (self.main, self.first):
            if e is not None and o.meta.get("fam") is e.elements:
                r = self.member(e.after, *o.meta["idx"])
                self.k.ctx.put(o if e.nodes is None else self.k.ctx.get(o, "mtree"), "reference", r)
                return r
        return None

    def copy_child(self, o, dest):
        """contract of deepcopy for an element: a new object that is stored in the destination"""
        k = self.k
        for e in (self.main, self.first):
            if e is not None and o.meta.get("fam") is e.elements:
                if not hasattr(e, "copies"):
                    n = e.elements.arity
                    slots = {"reference": (lambda e: lambda *t: self.member(e.after, *t))(e), "realm": dest,
                             "mapped": False}
                    if e.nodes is not None:
                        e.copy_nodes = k.fam("copied_node", "mtreenode.MTreeNode", slots, n)
                        slots = {"mtree": (lambda e: lambda *t: self.member(e.copy_nodes, *t))(e)}
                    e.copies = k.fam("copied_element", self.element_class, slots, n)
                return self.member(e.copies, *o.meta["idx"])
        return None

    def element(self, i, j):
        return self.member(self.elements, i, j)

    def member(self, fam, *t):
        return self.k.generic(fam, *t) if self._bound(*t) else self.k.ctx.fam_obj(fam, t)

    def _bound(self, *idx):
        return any(self.k.ctx.bound(t) for t in idx)

    def _inner_segs(self, i):
        j = self.k.var("j")
        rest = comp(Src(self.inner_t, [i]), j, DSet(PathV(self.path(i, j)), self.k.generic(self.records, i, j)))
        if self.first is None:
            return (rest,)
        return (DSet(PathV(self.first.path(i)), self.member(self.first.records, i)), rest)

    # ghost view
    def lookup(self, version, path):
        """(formula: has entry, i, j)"""
        ctx = self.k.ctx
        i = z3.simplify(ctx.tables["inv"][self.version.name()](version))
        j = z3.simplify(ctx.tables["inv"][self.path.name()](i, path.term))
        ctx.register(self.src, i)
        inner = Src(self.inner_t, [i])
        ctx.register(inner, j)
        f = z3.And(ctx.in_range(self.src, i), self.version(i) == version,
                   ctx.in_range(inner, j), self.path(i, j) == path.term)
        return f, i, j

    def entry(self, version, path):
        """split view: None or (kind, indices) of the entry (decides)"""
        k = self.k
        f, i, j = self.lookup(version, path)
        if k.branch(f):
            return self.main, (i, j)
        if self.first is not None and k.branch(z3.And(
                k.ctx.in_range(self.src, i), self.version(i) == version, self.first.path(i) == path.term)):
            return self.first, (i,)
        return None

    def some(self):
        """an arbitrary entry"""
        k = self.k
        i = k.ctx.skolem(self.src, "i")
        j = k.ctx.skolem(Src(self.inner_t, [i]), "j")
        return i, j


class UuidSets:
    """an arbitrary UUID set: for i < n: uuid(i) -> list(i). Each list has a reference before it is
    written (or none) and one after it was written"""

    def __init__(self, k, name="us"):
        self.k = k
        ctx = k.ctx
        u = k.uid()
        self.src = k.src(f"{name}_uuids")
        self.uuid = k.invertible(f"{name}_uuid", 1, S)
        k.injective(self.uuid, self.src)
        ctx.tables.setdefault("uuid_decl", set()).add(self.uuid.name())
        for t, v in (("nosep_decl", " \t\n\"/\\"), ("len_decl", 36)):
            ctx.tables.setdefault(t, {})[self.uuid.name()] = v
        i = k.var()
        ctx.ufact(self.src.t, (i,), (i,), z3.Not(needs_quote(self.uuid(i))))
        self.before = z3.Function(f"{name}_before@{u}", I, S)
        self.loc = z3.Function(f"{name}_location@{u}", I, S)
        ctx.tables["nosep_decl"][self.loc.name()] = " \t\n\"/"
        self.refs, self.after = (k.fam(f"{name}_{n}", "mapper.reference.Reference",
                                       {"class_name": "VersionList", "location": (lambda f: lambda i: f(i))(f)})
                                 for n, f in (("ref", self.before), ("after", self.loc)))
        self.realm = k.str("element_realm")
        self.lists = k.fam(f"{name}_list", "versionlist.VersionList", part_state(
            k, name, lambda i: k.generic(self.refs, i) if ctx.bound(i) else k.member(self.refs, i), self.realm))
        v = k.var()
        self.dict = HDict([comp(self.src, v, DSet(bi.UuidV(self.uuid(v)), k.generic(self.lists, v)))])

    def index(self, u):
        ctx = self.k.ctx
        i = z3.simplify(ctx.tables["inv"][self.uuid.name()](u.term))
        ctx.register(self.src, i)
        return z3.And(ctx.in_range(self.src, i), self.uuid(i) == u.term), i

    def copy_child(self, o, dest):
        """contract of deepcopy for a version list"""
        k = self.k
        if o.meta.get("fam") is not self.lists:
            return None
        if not hasattr(self, "copies"):
            self.copies = k.fam("copied_list", "versionlist.VersionList", {
                "mapped": False, "realm": dest,
                "reference": lambda i: k.generic(self.after, i) if k.ctx.bound(i) else k.member(self.after, i)})
        t = o.meta["idx"][0]
        return k.generic(self.copies, t) if k.ctx.bound(t) else k.member(self.copies, t)

    def write_child(self, o):
        if o.meta.get("fam") is self.lists:
            r = self.k.member(self.after, *o.meta["idx"])
            self.k.ctx.put(o, "reference", r)
            return r
        return None


def events(k, *kinds):
    return [s.v for s in k.ctx.peek(k.ctx.events, "segs") if isinstance(s, Lit) and s.v[0] in kinds]


class Tree:
    """an arbitrary tree node: for i < n: name(i) -> child(i), a sub-tree if is_tree(i), a leaf otherwise.
    Each child has a reference before it is written (or none) and one after it was written"""

    def __init__(self, k, leaf="metadata.Metadata", E=None, name="tn", dest=None):
        self.k = k
        ctx = k.ctx
        self.E = E
        u = k.uid()
        self.src = k.src(f"{name}_children")
        self.name = k.invertible(f"{name}_name", 1, S)
        k.injective(self.name, self.src)
        self.is_tree = z3.Function(f"{name}_is_tree@{u}", I, B)
        self.before = z3.Function(f"{name}_before@{u}", I, S)
        self.loc = z3.Function(f"{name}_location@{u}", I, S)
        i = k.var()
        x = self.name(i)
        for f in name_facts(x):
            ctx.ufact(self.src.t, (i,), (i,), f)
        tables = ctx.tables
        tables.setdefault("nosep_decl", {})[self.loc.name()] = " \t\n\"/"
        tables["nosep_decl"][self.name.name()] = "/"
        # leaves always have a location, sub-trees have the location *None* if they are empty
        none = z3.StringVal("*None*")
        ctx.ufact(self.src.t, (i,), (i,), z3.Implies(self.loc(i) == none, self.is_tree(i)))
        self.empty = lambda t: self.loc(t) == none
        leafname = leaf.split(".")[-1]
        self.leaf = k.cls(leaf)
        realm = k.str("child_realm") if dest is None else dest
        self.refs = {c: k.fam(f"{name}_{c}_ref", "mapper.reference.Reference",
                              {"class_name": c, "location": lambda i: self.loc(i)}) for c in ("MTreeNode", leafname)}
        self.old = {c: k.fam(f"{name}_{c}_old", "mapper.reference.Reference",
                             {"class_name": c, "location": lambda i: self.before(i)}) for c in ("MTreeNode", leafname)}
        self.fams = {c: k.fam(f"{name}_{c}", d, {
            "leaf_class": self.leaf, "leaf_class_name": leafname,
            **part_state(k, f"{name}_{c}", (lambda c: lambda i: self.at(self.old[c], i))(c), realm)})
            for c, d in (("MTreeNode", "mtreenode.MTreeNode"), (leafname, leaf))}
        self.leafname = leafname
        v = k.var()
        self.dict = HDict([Comp(self.src, v, [
            (self.is_tree(v), (DSet(self.name(v), self.at(self.fams["MTreeNode"], v)),)),
            (z3.Not(self.is_tree(v)), (DSet(self.name(v), self.at(self.fams[leafname], v)),))], None, True)])

    def at(self, fam, i):
        return self.k.generic(fam, i) if z3.is_const(i) and str(i).startswith("~") else self.k.member(fam, i)

    def child(self, i):
        """the child at index i; decides of which kind it is"""
        return self.at(self.fams["MTreeNode" if self.k.branch(self.is_tree(i)) else self.leafname], i)

    def write_child(self, o):
        """contract of write_out for a child"""
        f = o.meta.get("fam")
        for c, fam in self.fams.items():
            if f is fam:
                r = self.k.member(self.refs[c], *o.meta["idx"])
                self.k.ctx.put(o, "reference", r)
                return r
        return None

    def copy_child(self, o, dest):
        """contract of deepcopy for a child: a new object of the same class that is stored in the destination"""
        f = o.meta.get("fam")
        for c, fam in self.fams.items():
            if f is fam:
                if not hasattr(self, "copies"):
                    self.copies = {c: self.k.fam(f"{c}_copy", fam.cls.qualname, {
                        "mapped": False, "realm": dest, "leaf_class": self.leaf, "leaf_class_name": self.leafname,
                        "reference": (lambda c: lambda i: self.at(self.refs[c], i))(c)})
                        for c, fam in self.fams.items()}
                return self.at(self.copies[c], *o.meta["idx"])
        return None

    def index(self, x):
        """(the name x exists, its index)"""
        ctx = self.k.ctx
        i = z3.simplify(ctx.tables["inv"][self.name.name()](bi.term(x)))
        ctx.register(self.src, i)
        return z3.And(ctx.in_range(self.src, i), self.name(i) == x), i

    def node(self, **kw):
        n = self.k.new("mtreenode.MTreeNode", self.leaf)
        self.k.ctx.put(n, "child_nodes", self.dict)
        for a, b in kw.items():
            self.k.ctx.put(n, a, b)
        return n


def name_facts(x):
    """legal names of tree entries"""
    from pyvc.externals import isname
    return [isname(x), z3.Length(x) > 0, z3.Not(z3.Contains(x, z3.StringVal("/"))),
            x != z3.StringVal("."), x != z3.StringVal("..")]


class Runs:
    """an arbitrary instance set: for i < n: configuration(i), which is (version(i), parameter(i)), and its
    record. Configurations are pairwise distinct, each record belongs to its configuration"""

    def __init__(self, k, name="run"):
        self.k = k
        ctx = k.ctx
        u = k.uid()
        M = "metadata"
        self.src = k.src(f"{name}_configurations")
        self.version, self.parameter, self.time, self.content = (
            z3.Function(f"{name}_{n}@{u}", I, Val) for n in ("version", "parameter", "time_stamp", "content"))
        self.author, self.email = (z3.Function(f"{name}_{n}@{u}", I, S) for n in ("author", "email"))
        self.inverse = z3.Function(f"{name}_index@{u}", Val, Val, I)
        i = k.var()
        ctx.ufact(self.src.t, (i,), (i,), self.inverse(self.version(i), self.parameter(i)) == i)
        self.parameters = [k.fam(f"{name}_parameter{n}", f"{M}.ParameterDict", {"$val": self.parameter})
                           for n in range(2)]
        self.confs, self.own = (k.fam(f"{name}_configuration{n}", f"{M}.ExtractorConfiguration", {
            "version": self.version, "parameter": (lambda n: lambda i: self.at(self.parameters[n], i))(n)})
            for n in range(2))
        self.records = k.fam(f"{name}_record", f"{M}.MetadataInstance", {
            "time_stamp": self.time, "author_name": self.author, "author_email": self.email,
            "configuration": lambda i: self.at(self.own, i), "metadata_content": self.content})
        v = k.var()
        self.set = k.new(f"{M}.MetadataInstanceSet")
        ctx.put(self.set, "parameter_set", HList([comp(self.src, v, Lit(k.generic(self.confs, v)))]))
        ctx.put(self.set, "_instances", HDict([comp(self.src, v, DSet(v, k.generic(self.records, v)))]))

    def at(self, fam, i):
        return self.k.generic(fam, i) if self.k.ctx.bound(i) else self.k.member(fam, i)

    def index(self, version, parameter):
        """(formula: the configuration is known, its index)"""
        ctx = self.k.ctx
        i = z3.simplify(self.inverse(version, parameter))
        ctx.register(self.src, i)
        return z3.And(ctx.in_range(self.src, i), self.version(i) == version, self.parameter(i) == parameter), i


def configuration(k, name="configuration"):
    """an arbitrary extractor configuration: (object, version, parameter)"""
    v, p = k.val(f"{name}_version"), k.val(f"{name}_parameter")
    return k.new("metadata.ExtractorConfiguration", v, p), v, p


def record(k, name="record", conf=None):
    """an arbitrary record: (object, {attribute: value})"""
    c = conf or configuration(k, f"{name}_configuration")
    a = {"time_stamp": k.val(f"{name}_time"), "author_name": k.str(f"{name}_author"),
         "author_email": k.str(f"{name}_email"), "configuration": c[0], "metadata_content": k.val(f"{name}_content")}
    return k.new("metadata.MetadataInstance", *a.values()), a


def param(k, c):
    """the parameter value of a configuration"""
    p = k.get(c, "parameter")
    return k.ctx.get(p, "$val") if isinstance(p, Obj) and bi.native(k.it, p, "$val") else p


class InstanceSets:
    """an arbitrary metadata object: for i < n: extractor(i) -> set(i). The instance sets are under
    the contract of to_json_obj and from_json_obj: the JSON value of set(i) is loaded as copy(i) (C07)"""

    def __init__(self, k):
        self.k = k
        MIS = "dataladmetadatamodel.metadata.MetadataInstanceSet"
        self.src = k.src("extractors")
        self.name = k.invertible("extractor", 1, S)
        k.injective(self.name, self.src)
        self.json = z3.Function(f"instance_set_json@{k.uid()}", z3.IntSort(), Val)
        self.sets = k.fam("instance_set", "metadata.MetadataInstanceSet", {})
        self.copies = k.fam("loaded_instance_set", "metadata.MetadataInstanceSet", {})
        self.duplicates = k.fam("duplicated_instance_set", "metadata.MetadataInstanceSet", {})
        v = k.var()
        self.dict = HDict([comp(self.src, v, DSet(self.name(v), k.generic(self.sets, v)))])
        k.it.contracts[f"{MIS}.to_json_obj"] = lambda it, s: self.json(*s["self"].meta["idx"])
        k.it.contracts[f"{MIS}.from_json_obj"] = self.from_json

    def duplicate(self, v):
        """deepcopy: an instance set has no method of its own for that; the copy has the same content"""
        if getattr(v, "meta", {}).get("fam") is not self.sets:
            return None
        t = v.meta["idx"][0]
        return self.k.generic(self.duplicates, t) if self.k.ctx.bound(t) else self.k.member(self.duplicates, t)

    def from_json(self, it, s):
        o = s["obj"]
        if not (z3.is_expr(o) and o.sort() == Val and o.num_args() == 1 and o.decl().eq(self.json)):
            raise NotImplementedError("instance set")
        t = o.arg(0)
        return self.k.generic(self.copies, t) if self.k.ctx.bound(t) else self.k.member(self.copies, t)

    def index(self, x):
        ctx = self.k.ctx
        i = z3.simplify(ctx.tables["inv"][self.name.name()](x))
        ctx.register(self.src, i)
        return z3.And(ctx.in_range(self.src, i), self.name(i) == x), i
