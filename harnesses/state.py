"""Arbitrary mappable objects: any realms on which the object was saved, any locations of
sub-objects at the time it was saved, any number of sub-objects, which are under contract"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, Comp, DSet, HDict, HList, HSet, I, Lit, Obj, PathV, S

from .common import MO, MP, Elements, InstanceSets, Tree, UuidSets, VersionLists, comp

REF = "mapper.reference.Reference"
CLASSES = {
    "MTreeNode": "mtreenode.MTreeNode",
    "MetadataRootRecord": "metadatarootrecord.MetadataRootRecord",
    "VersionList": "versionlist.VersionList",
    "TreeVersionList": "versionlist.TreeVersionList",
    "UUIDSet": "uuidset.UUIDSet",
    "Metadata": "metadata.Metadata",
    "Text": "text.Text",
}


def new(k, cls, **kw):
    """a new, empty object"""
    args = {"MTreeNode": lambda: [k.cls("metadata.Metadata")], "MetadataRootRecord": lambda: [None] * 4}
    o = k.new(CLASSES[cls], *args.get(cls, lambda: [])())
    for a, b in kw.items():
        k.ctx.put(o, a, b)
    return o


class Realms:
    """an arbitrary set of realms"""

    def __init__(self, k, name="saved_on"):
        self.k = k
        self.src = k.src(name)
        self.realm = k.invertible(f"{name}_realm", 1, S)
        k.injective(self.realm, self.src)
        v = k.var()
        self.set = HSet([comp(self.src, v, Lit(self.realm(v)))])

    def has(self, d):
        i = z3.simplify(self.k.ctx.tables["inv"][self.realm.name()](bi.term(d)))
        self.k.ctx.register(self.src, i)
        return z3.And(self.k.ctx.in_range(self.src, i), self.realm(i) == bi.term(d))


class Locations:
    """an arbitrary list of locations or None"""

    def __init__(self, k, name="locations", src=None):
        self.k = k
        self.src = src or k.src(name)
        self.has = z3.Function(f"{name}_has@{k.uid()}", I, B)
        self.loc = z3.Function(f"{name}_loc@{k.uid()}", I, S)
        v = k.var()
        self.list = HList([Comp(self.src, v, [(self.has(v), (Lit(self.loc(v)),)),
                                              (z3.Not(self.has(v)), (Lit(None),))], None, False)])

    def same(self, other, i):
        return z3.And(self.has(i) == other.has(i), z3.Implies(self.has(i), self.loc(i) == other.loc(i)))


class Children:
    """any number of sub-objects, with a reference or without one"""

    def __init__(self, k, name="child", cls="text.Text"):
        self.k = k
        self.src = k.src(name)
        u = k.uid()
        self.locations = Locations(k, f"{name}_locations", self.src)
        self.saved = z3.Function(f"{name}_saved@{u}", I, S, B)
        self.refs = k.fam(f"{name}_ref", REF, {"class_name": "Text", "location": lambda i: self.locations.loc(i)})
        self.with_ref = k.fam(f"{name}_with_reference", cls, {"reference": lambda i: self.at(self.refs, i)})
        self.without = k.fam(f"{name}_without_reference", cls, {"reference": None})
        v = k.var()
        has = self.locations.has
        self.list = HList([Comp(self.src, v, [
            (has(v), (Lit(self.at(self.with_ref, v)),)),
            (z3.Not(has(v)), (Lit(self.at(self.without, v)),))], None, True)])

    def at(self, fam, i):
        return self.k.generic(fam, i) if self.k.ctx.bound(i) else self.k.member(fam, i)

    def owns(self, o):
        return o.meta.get("fam") in (self.with_ref, self.without)


class Object:
    """an arbitrary object of a class; its own methods are executed, those of its sub-objects are under contract"""

    def __init__(self, k, cls, **kw):
        self.k = k
        self.cls = cls
        self.children = Children(k)
        self.realms = Realms(k)
        self.old = Locations(k, "saved_locations")
        self.o = new(k, cls, saved_on=self.realms.set, saved_sub_object_locations=self.old.list, **kw)
        self.calls = []
        self.purged = []
        self.impl = k.it.class_attr(k.cls(CLASSES[cls]), "modifiable_sub_objects_impl")
        k.it.contracts[self.impl.qualname] = lambda it, s: self.children.list
        for m in ("is_saved_on", "purge", "write_out", "read_in"):
            k.it.contracts[f"{MO}.{m}"] = (lambda m: lambda it, s: self.call(m, it, s))(m)

    def body(self, m, *args, cls=MO, **kw):
        """the real method of the object under test"""
        fn = self.k.it.class_attr(self.k.cls(cls), m)
        names = fn.node.args.args[1:]
        return self.k.it.call_body(fn, [self.o], {**{a.arg: v for a, v in zip(names, args)}, **kw})

    def all_saved_on(self, d):
        """all sub-objects are saved on a realm"""
        v = self.k.var()
        c = self.children
        self.k.ctx.ufact(c.src.t, (v,), (v,), c.saved(v, bi.term(d)))

    def replaced(self, d):
        """the sub-objects that exist after the object was written or read: they are saved on the realm"""
        self.before = self.children
        self.children = c = Children(self.k, "written")
        v = self.k.var()
        self.k.ctx.ufact(c.src.t, (v,), (v,), c.locations.has(v))
        self.all_saved_on(d)

    def mapper(self, outcome):
        """contract of the mappers (C01)"""
        M = "dataladmetadatamodel.mapper.mapper.Mapper"
        for m in ("map_out", "map_in"):
            self.k.it.contracts[f"{M}.{m}"] = (lambda m: lambda it, s: outcome(m, s))(m)

    def unchanged(self, label, *slots):
        """attributes that still have the value they had in the beginning"""
        for n in slots:
            v, w = self.k.ctx.get(self.o, n), self.start[n]
            self.k.prove(f"{label}/{n}-unchanged", v is w and self.k.ctx.peek(v, "segs") == self.segs[n]
                         if n in self.segs else v is w)

    def remember(self):
        self.start = {n: self.k.ctx.get(self.o, n) for n in (
            "saved_on", "saved_sub_object_locations", "mapped", "realm", "reference")}
        self.segs = {n: self.k.ctx.get(v, "segs") for n, v in self.start.items() if isinstance(v, (HSet, HList, HDict))}

    def call(self, m, it, s):
        o = s["self"]
        c = self.children
        if o is self.o:
            f = getattr(self, f"own_{m}", None)
            if f:
                return f(s)
            fn = it.class_attr(it.lookup_class(MO), m)
            return it.call_body(fn, [o], {a: b for a, b in s.items() if a != "self"})
        if c.owns(o) and m == "is_saved_on":
            return c.saved(*o.meta["idx"], bi.term(s["destination"]))
        raise NotImplementedError(m)


class Content:
    """an arbitrary object of a class with its real content, loaded or not; its sub-objects are under contract"""

    def __init__(self, k, cls, loaded=None):
        self.k = k
        self.cls = cls
        k.ext.install_path_contract()
        self.E = E = Elements(k)
        self.realms = Realms(k)
        self.modified = []          # sub-objects that were modified
        self.parts = {}             # attributes of the content
        if cls == "MTreeNode":
            self.D = Tree(k, "metadata.Metadata", E)
            self.o = self.D.node()
            self.parts["child_nodes"] = self.D.dict
        elif cls == "MetadataRootRecord":
            self.o = new(k, cls)
            self.dlm = opaque(k, "metadata.Metadata") if k.bool("has_metadata") else None
            self.ft = opaque(k, "filetree.FileTree") if k.bool("has_file_tree") else None
            self.parts = {"dataset_level_metadata": self.dlm, "_file_tree": self.ft}
        elif cls in ("VersionList", "TreeVersionList"):
            self.D = VersionLists(k, "datasettree.DatasetTree" if cls[0] == "T" else CLASSES["MetadataRootRecord"])
            self.o = new(k, cls)
            self.parts["version_set"] = self.D.outer
        elif cls == "UUIDSet":
            self.D = UuidSets(k)
            self.o = new(k, cls)
            self.parts["uuid_set"] = self.D.dict
        elif cls == "Metadata":
            self.D = InstanceSets(k)
            self.o = new(k, cls)
            self.parts["instance_sets"] = self.D.dict
        else:
            self.o = new(k, cls)
            self.parts["content"] = k.str("content")
        o = self.o
        k.ctx.put(o, "saved_on", self.realms.set)
        self.loaded = k.bool("loaded") if loaded is None else loaded
        if self.loaded:
            self.put()
        else:
            k.ctx.put(o, "realm", k.realm("realm"))
            k.ctx.put(o, "reference", k.new(REF, cls, k.ext.fresh_hash()))
            k.ctx.put(o, "mapped", False)
            for n in self.parts:
                k.ctx.put(o, n, HDict() if n.endswith("s") or n.endswith("set") else None)
        E.own[id(o)] = {"read_in": self.read_in}
        call = E.call

        def dispatch(m, it, s, c=MO):
            x = s["self"]
            if m == "is_saved_on":
                if x is o:
                    return it.call_body(it.class_attr(it.lookup_class(MO), m), [x], {"destination": s["destination"]})
                return False if any(x is y for y in self.modified) else k.ctx.fresh("child_is_saved", B)
            return call(m, it, s, c)
        E.call = dispatch

    def put(self):
        for n, v in self.parts.items():
            self.k.ctx.put(self.o, n, v)

    def read_in(self, s):
        """contract of read_in: the content is loaded, nothing else changes"""
        if self.k.ctx.get(self.o, "mapped") is False:
            self.put()
            self.k.ctx.put(self.o, "mapped", True)
        return self.o

    def unchanged(self, label):
        """neither the saved state nor the content has changed"""
        k, o = self.k, self.o
        s = k.ctx.get(o, "saved_on")
        k.prove(f"{label}/saved-state-unchanged",
                s is self.realms.set and k.ctx.peek(s, "segs") == self.segs[0])
        for n, v in self.parts.items():
            w = k.ctx.get(o, n)
            k.prove(f"{label}/{n}-unchanged", (w is v and k.ctx.peek(w, "segs") == self.segs[1][n]
                                               if isinstance(v, HDict) else w is v) if k.ctx.get(o, "mapped") else True)

    def remember(self):
        self.segs = (self.k.ctx.get(self.realms.set, "segs"),
                     {n: self.k.ctx.get(v, "segs") for n, v in self.parts.items() if isinstance(v, HDict)})

    def is_unsaved(self, label):
        """... whatever the locations of the parts were when it was saved: even if they are those of the parts now"""
        d = self.k.str("any_destination")
        if self.k.bool("same_locations_of_parts"):
            self.k.ctx.put(self.o, "saved_sub_object_locations", self.k.m(self.o, "get_sub_object_locations"))
        r = self.k.truth(self.k.m(self.o, "is_saved_on", d))
        self.k.prove(label, bi.neg(r) if not isinstance(r, bool) else not r)


def name_first(k, rest=None):
    """(a legal name, an arbitrary path that begins with it)"""
    x = k.name("first_element")
    return x, PathV(z3.Concat(z3.Unit(x), k.path("rest").term if rest is None else rest))


def opaque(k, cls):
    """an object that is used under contract only"""
    slots = {"mapped": True, "reference": None, "realm": None}
    if cls in ("filetree.FileTree", "datasettree.DatasetTree"):
        slots["mtree"] = Obj(k.cls(CLASSES["MTreeNode"]), dict(slots))
    return Obj(k.cls(cls), slots)


def per_class(module, fn, *without):
    """one harness for each class"""
    out = []
    for cls in CLASSES:
        if cls in without:
            continue
        h = (lambda cls: lambda k: fn(k, cls))(cls)
        h.__name__ = f"{fn.__name__.strip('_')}_{cls}"
        h.__doc__ = fn.__doc__
        module[h.__name__] = h
        out.append(h)
    return out


GENERIC = ["write_out", "read_in", "ensure_mapped", "is_saved_on", "set_saved_on", "set_unsaved", "touch",
           "get_sub_object_locations", "modifiable_sub_objects"]


def representatives(k):
    """one class for each combination of implementations of the methods that the classes inherit"""
    seen = {}
    for cls in CLASSES:
        fs = tuple(id(k.it.class_attr(k.cls(CLASSES[cls]), m)) for m in GENERIC)
        seen.setdefault(fs, cls)
    return list(seen.values())


def any_class(k):
    r = representatives(k)
    return r[k.choose(len(r))]
