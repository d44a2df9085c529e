"""C10 References are published only after their content is stored: the sequence of git commands of a write, with a
failure of any command, and of writing any part, at any point"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import Comp, Lit, Obj, Src
from pyvc.gitmodel import Git

from .c01 import Writer, save
from .c09 import Record, is_object
from .common import InstanceSets, UuidSets, VersionLists, events, why
from .state import REF

OR = "mapper.gitmapper.objectreference"


class Publishing:
    """checks each move of a reference when it happens"""

    def __init__(self, k, dest, name, check):
        self.k = k
        self.g = g = Git(k, faults=True)
        self.moves = 0
        want = k.get(k.get(k.get(k.it.module(f"dataladmetadatamodel.{OR}"), "GitReference"), name), "value")
        add_ref = g.add_ref

        def moved(realm, ref, target):
            k.prove("publish/realm", k.eq(realm, dest))
            k.prove("publish/reference", k.eq(ref, want))
            o = g.find(realm, target)
            k.prove("publish/target-is-stored", o is not None)
            self.moves += 1
            k.prove("publish/once", self.moves == 1)
            if o is not None:
                check(o)
            add_ref(realm, ref, target)
        g.add_ref = moved

    def finish(self, a):
        """afterwards"""
        k = self.k
        failed = len(events(k, "gitfail")) + len(events(k, "part-failed"))
        published = k.ctx.get(self.g.refs, "segs")
        k.prove("write/fails-iff-something-fails", a.ok == (failed == 0))
        if a.ok:
            k.cover("write/success")
            k.prove("write/published", len(published) == 1)
            if len(published) == 1:
                k.prove("write/published-reference", k.eq(published[0].v[2], k.get(a.value, "location")))
        else:
            k.cover("write/failure")
            k.prove("write/nothing-is-published-on-failure", len(published) == 0)


def part(k, write):
    """contract of write_out of a part: it is stored, or an error is raised"""
    def one(o):
        if k.branch(k.ctx.fresh("part_fails", z3.BoolSort())):
            k.ext.event("part-failed")
            k.it.throw("RuntimeError", "git hash-object")
        return write(o)
    return one


def tree_version_list(k):
    """the reference of the tree version list is moved after the list, and before it all of its trees, are stored"""
    k.unsaved_parts = True
    E = Writer(k)
    D = VersionLists(k, "datasettree.DatasetTree", split=True)
    E.write = part(k, D.write_child)
    dest = k.realm()
    o = k.new("versionlist.TreeVersionList")
    k.ctx.put(o, "version_set", D.outer)

    def check(stored):
        k.prove("publish/is-a-blob", stored.kind == "blob")

        def one():
            hit = D.entry(k.str("version"), k.path("prefix"))
            if hit is not None:
                k.cover("publish/part")
                e, t = hit
                r = k.get(k.get(k.member(e.elements, *t), "mtree"), "reference")
                k.prove("publish/parts-are-stored", r is not None and k.eq(k.get(r, "location"), e.loc(*t)))
        k.split(one)
    P = Publishing(k, dest, "TREE_VERSION_LIST", check)
    P.finish(save(k, E, o, dest))


def uuid_set(k):
    """the reference of the UUID set is moved after the set, and before it all of its version lists, are stored"""
    k.unsaved_parts = True
    E = Writer(k)
    D = UuidSets(k)
    E.write = part(k, D.write_child)
    dest = k.realm()
    o = k.new("uuidset.UUIDSet")
    k.ctx.put(o, "uuid_set", D.dict)

    def check(stored):
        k.prove("publish/is-a-tree", stored.kind == "tree")

        def one():
            u = k.uuid()
            has, i = D.index(u)
            if k.branch(has):
                k.cover("publish/part")
                r = k.get(k.member(D.lists, i), "reference")
                k.prove("publish/parts-are-stored", r is not None and k.eq(k.get(r, "location"), D.loc(i)))
        k.split(one)
    P = Publishing(k, dest, "UUID_SET", check)
    P.finish(save(k, E, o, dest))


def version_list(k):
    """a version list moves no reference"""
    k.unsaved_parts = True
    E = Writer(k)
    D = VersionLists(k, "metadatarootrecord.MetadataRootRecord", split=True)
    E.write = part(k, D.write_child)
    o = k.new("versionlist.VersionList")
    k.ctx.put(o, "version_set", D.outer)
    no_reference(k, E, o)


def metadata(k):
    """metadata moves no reference"""
    E = Writer(k)
    D = InstanceSets(k)
    o = k.new("metadata.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    no_reference(k, E, o)


def no_reference(k, E, o):
    g = Git(k, faults=True)
    a = save(k, E, o, k.realm())
    failed = len(events(k, "gitfail")) + len(events(k, "part-failed"))
    k.prove("write/fails-iff-something-fails", a.ok == (failed == 0))
    k.prove("write/nothing-is-published", len(k.ctx.get(g.refs, "segs")) == 0)


def recorded_is_stored(k):
    """the content of metadata is recorded only if it is stored, also if the blobs are written later"""
    g = Git(k, faults=True)
    E = Writer(k)
    D = InstanceSets(k)
    T = Record(k)
    dest = k.realm()
    cached = k.bool("realm_is_cached")
    M = k.cls("mapper.gitmapper.metadatamapper.MetadataGitMapper")
    if cached:
        k.call(k.it.getattr(M, "cache_realm"), dest)
    o = k.new("metadata.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    a = save(k, E, o, dest)
    if cached:
        b = k.attempt(lambda: k.call(k.it.getattr(M, "flush_realm"), dest))
        failed = len(events(k, "gitfail"))
        k.prove("metadata/flush-fails-iff-git-fails", b.ok == (failed == 0))
        if not b.ok:
            k.cover("metadata/flush-failure")
            k.prove("metadata/unsaved-after-failure", bi.neg(bi.boolterm(k.truth(k.m(o, "is_saved_on", dest)))))
        ok = a.ok and b.ok
    else:
        k.prove("metadata/write-fails-iff-git-fails", a.ok == (len(events(k, "gitfail")) == 0))
        ok = a.ok
    for s in k.ctx.get(k.ctx.get(T.mod, "cached_object_references"), "segs"):
        k.cover("metadata/recorded")
        k.prove("metadata/recorded-content-is-stored", isinstance(s, Lit) and g.find(dest, s.v[1]) is not None)
    if ok:
        k.cover("metadata/written")
        k.prove("metadata/reference-is-stored", g.find(dest, k.get(a.value, "location")) is not None)


def file_tree(k):
    """when a file tree was written, its blobs are flushed; if that fails, an error is raised and nothing recorded"""
    E = Writer(k)
    T = Record(k)
    dest = k.realm()
    leaf = k.cls("metadata.Metadata")
    mtree = k.new("mtreenode.MTreeNode", leaf)
    h = is_object(k, k.ext.fresh_hash("tree"))
    M = "dataladmetadatamodel.mapper.gitmapper.metadatamapper.MetadataGitMapper"

    def cache(it, s):
        k.prove("cache/realm", k.eq(s["realm"], dest))
        k.ext.event("cache")

    def flush(it, s):
        k.prove("flush/realm", k.eq(s["realm"], dest))
        if k.branch(k.ctx.fresh("flush_fails", z3.BoolSort())):
            k.ext.event("part-failed")
            it.throw("RuntimeError", "git hash-object")
        k.ext.event("flush")
    k.it.contracts[f"{M}.cache_realm"] = cache
    k.it.contracts[f"{M}.flush_realm"] = flush
    add = k.it.module(f"dataladmetadatamodel.{OR}")

    def write(o):
        k.ext.event("write")
        r = k.new(REF, "MTreeNode", h)
        k.ctx.put(o, "reference", r)
        return r
    E.write = part(k, write)
    o = k.new("filetree.FileTree", mtree)
    E.body.append(o)
    a = k.attempt(lambda: k.m(o, "write_out", dest))
    seq = [e[0] for e in events(k, "cache", "write", "flush", "part-failed")]
    k.prove("tree/fails-iff-something-fails", a.ok == ("part-failed" not in seq))
    if a.ok:
        k.cover("tree/success")
        k.prove("tree/blobs-are-flushed-after-they-are-written", "cache" not in seq or seq == ["cache", "write", "flush"])
    else:
        k.cover("tree/failure")
        k.prove("tree/nothing-is-recorded-on-failure", bi.neg(bi.boolterm(T.has(True, h))))


HARNESSES = [tree_version_list, uuid_set, version_list, metadata, recorded_is_stored, file_tree]
