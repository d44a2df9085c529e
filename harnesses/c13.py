"""C13 Batched writes equal immediate writes: contracts of GitBlobCache, of the
per-realm caches of MetadataGitMapper and of the trees that use them"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, I, HDict, HList, HSet, Lit, Obj, PyRaise, S
from pyvc.externals import blobhash
from pyvc.gitmodel import Git
from pyvc.interp import BytesV

from .common import Elements, comp, events, why

GBC = "mapper.gitmapper.gitblobcache"
MGM = "mapper.gitmapper.metadatamapper.MetadataGitMapper"


class Pending:
    """an arbitrary cache: for i < n: content(i) is to be stored (as text or as bytes)"""

    def __init__(self, k, realm, text):
        self.k = k
        self.text = text
        self.src = k.src("pending")
        self.content = z3.Function(f"content@{k.uid()}", I, S)
        v = k.var()
        c = self.content(v)
        self.segs = [comp(self.src, v, Lit((c if text else BytesV(c), k.ext.blob_hash(c))))]
        self.max = k.int("maxsize")
        k.assume(self.max >= 1)
        k.assume(self.src.n <= self.max)
        self.cache = k.new(f"{GBC}.GitBlobCache", realm, self.max)
        k.ctx.put(self.cache, "cached_objects", HList(self.segs))

    def pending(self):
        return self.k.ctx.get(self.k.ctx.get(self.cache, "cached_objects"), "segs")


def stored(k, g, realm, content, label):
    """the realm holds the content under its git id"""
    o = g.find(realm, k.ext.blob_hash(content))
    k.prove(f"{label}/stored", o is not None)
    if o is not None:
        k.prove(f"{label}/stored-as-blob", o.kind == "blob")
        k.prove(f"{label}/stored-content", o.payload is not None and k.eq(o.payload, content))


def blob_id(k):
    """the predicted id is the id that git gives to the content"""
    c = k.str("content")
    h = k.call(k.func(f"{GBC}.hash_blob"), c if k.bool("text") else BytesV(c))
    k.prove("id/predicted", k.eq(h, k.ext.blob_hash(c)))


def flush(k):
    """flush stores every pending blob; nothing is pending afterwards"""
    g = Git(k)
    r = k.realm()
    P = Pending(k, r, k.bool("text"))
    a = k.attempt(lambda: k.m(P.cache, "flush"))
    k.prove("flush/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("flush/nothing-pending", k.eq(k.call(k.it.builtins["len"], k.get(P.cache, "cached_objects")), 0))

    def one():
        if not k.branch(P.src.n > 0):
            return
        k.cover("flush/some")
        i = k.ctx.skolem(P.src, "i")
        stored(k, g, r, P.content(i), "flush")
    k.split(one)


def cache(k):
    """cache_blob returns the id; the blob is pending afterwards, all others are pending or stored"""
    g = Git(k)
    r = k.realm()
    P = Pending(k, r, k.bool("pending_text"))
    c = k.str("new_content")
    a = k.attempt(lambda: k.m(P.cache, "cache_blob", r, c if k.bool("text") else BytesV(c)))
    k.prove("cache/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("cache/id", k.eq(a.value, k.ext.blob_hash(c)))
    pending = k.get(P.cache, "cached_objects")
    h = k.ext.blob_hash(c)
    k.prove("cache/pending", z3.Or(*[bi.boolterm(bi.contains(k.it, pending, (x, h))) for x in (c, BytesV(c))]))

    def one():
        if not k.branch(P.src.n > 0):
            return
        i = k.ctx.skolem(P.src, "i")
        x = P.content(i)
        if k.branch(bi.boolterm(bi.contains(k.it, pending, (x if P.text else BytesV(x), k.ext.blob_hash(x))))):
            k.cover("cache/room")
        else:
            k.cover("cache/full")
            stored(k, g, r, x, "cache")
    k.split(one)


def flush_failure(k):
    """a failing flush is reported and drops nothing"""
    Git(k, faults=True)
    r = k.realm()
    P = Pending(k, r, k.bool("text"))
    a = k.attempt(lambda: k.m(P.cache, "flush"))
    if not events(k, "gitfail"):
        k.prove("failure/no-error-without-failure", a.ok, why(k, a))
        return
    k.cover("failure/failed")
    k.prove("failure/reported", not a.ok)
    k.prove("failure/blobs-are-still-pending", list(P.pending()) == P.segs)


# ------------------------------------------------------------------ per-realm caches

def mgm(k, name, *args):
    return k.attempt(lambda: k.call(k.it.getattr(k.cls(MGM), name), *args))


def cached(k, r):
    """is the realm cached"""
    a = mgm(k, "get_cache", r)
    return a.value if a.ok else None


class Cached:
    """a realm with any number of cached metadata objects; some are recorded as saved"""

    def __init__(self, k, r, text=True):
        self.k = k
        a = mgm(k, "cache_realm", r)
        k.prove("realm/cached", a.ok, why(k, a))
        self.cache = cached(k, r)
        self.src = k.src("cached_metadata")
        self.loc = z3.Function(f"cached_location@{k.uid()}", I, S)
        k.ctx.tables.setdefault("nosep_decl", {})[self.loc.name()] = " \t\n\"/"
        self.saved = k.realm("saved")
        i = k.var()
        k.ctx.ufact(self.src.t, (i,), (i,), self.loc(i) != z3.StringVal("*None*"))
        self.objects = k.fam("cached_metadata", "metadata.Metadata", {
            "saved_on": lambda i: HSet([Lit(self.saved)]), "mapped": True})
        v = k.var()
        self.n = self.src.n
        lst = k.it.getitem(k.it.getattr(k.cls(MGM), "cached_metadata"), r)
        k.ctx.put(lst, "segs", (comp(self.src, v, Lit((k.generic(self.objects, v), self.loc(v)))),))


def write_another(k, r):
    """write one more metadata object to the cached realm: (object, location of its blob)"""
    k.ext.install_path_contract()
    json = k.str("json")
    k.it.contracts["dataladmetadatamodel.metadata.Metadata.to_json"] = lambda it, s: json
    o = k.new("metadata.Metadata")
    a = k.attempt(lambda: k.m(k.new(MGM, "Metadata"), "map_out_impl", o, r, False))
    if events(k, "gitfail"):
        k.prove("realm/failed-flush-is-reported", not a.ok)
    else:
        k.prove("realm/written", a.ok, why(k, a))
    k.ctx.put(o, "saved_on", HSet([Lit(k.realm("saved"))]))
    return o, k.ext.blob_hash(json)


def some(k, D, fn):
    def one():
        if k.branch(D.n > 0):
            fn(k.ctx.skolem(D.src, "i"))
    k.split(one)


def flush_realm(k):
    """flushing stores all blobs, adds all metadata blobs to the references and ends the caching"""
    g = Git(k)
    r = k.realm()
    D = Cached(k, r)
    contents = z3.Function(f"content@{k.uid()}", I, S)
    src = k.src("pending")
    v = k.var()
    k.ctx.put(k.get(D.cache, "cached_objects"), "segs", (
        comp(src, v, Lit((contents(v), k.ext.blob_hash(contents(v))))),))
    new = write_another(k, r)
    a = mgm(k, "flush_realm", r)
    k.prove("realm/flush-succeeds", a.ok, why(k, a))
    k.prove("realm/not-cached-afterwards", cached(k, r) is None)
    b = mgm(k, "cache_realm", r)
    k.prove("realm/can-be-cached-again", b.ok, why(k, b))

    def stored_one():
        if k.branch(src.n > 0):
            k.cover("realm/some")
            stored(k, g, r, contents(k.ctx.skolem(src, "i")), "realm")
    k.split(stored_one)

    def ref(i):
        et = k.it.getattr(k.cls("mapper.gitmapper.treeupdater.EntryType"), "File")
        refs = k.cls("mapper.gitmapper.objectreference.cached_object_references")
        k.prove("realm/blob-is-referenced", bi.contains(k.it, refs, (et, D.loc(i))))
    some(k, D, ref)
    et = k.it.getattr(k.cls("mapper.gitmapper.treeupdater.EntryType"), "File")
    refs = k.cls("mapper.gitmapper.objectreference.cached_object_references")
    k.prove("realm/new-blob-is-referenced", bi.contains(k.it, refs, (et, new[1])))


def flush_realm_failure(k):
    """if a flush fails, the error is reported, no metadata whose blob may be missing
    counts as saved, and the realm can be cached again"""
    Git(k, faults=True)
    r = k.realm()
    D = Cached(k, r)
    contents = z3.Function(f"content@{k.uid()}", I, S)
    src = k.src("pending")
    v = k.var()
    k.ctx.put(k.get(D.cache, "cached_objects"), "segs", (
        comp(src, v, Lit((contents(v), k.ext.blob_hash(contents(v))))),))
    new = write_another(k, r)
    if events(k, "gitfail"):
        # the cache was full, and flushing it failed
        return
    a = mgm(k, "flush_realm", r)
    failed = bool(events(k, "gitfail"))
    k.prove("realm-failure/reported", a.ok is not failed, why(k, a))
    k.prove("realm-failure/not-cached-afterwards", cached(k, r) is None)
    b = mgm(k, "cache_realm", r)
    k.prove("realm-failure/can-be-cached-again", b.ok, why(k, b))
    if not failed:
        return
    k.cover("realm-failure/failed")

    def one(i):
        o = k.member(D.objects, i)
        d = k.str("destination")
        k.prove("realm-failure/not-saved", z3.Not(bi.boolterm(bi.contains(k.it, k.get(o, "saved_on"), d))))
    some(k, D, one)
    k.prove("realm-failure/new-not-saved", z3.Not(bi.boolterm(
        bi.contains(k.it, k.get(new[0], "saved_on"), k.str("destination")))))
    k.prove("realm-failure/nothing-left-behind", k.eq(
        k.call(k.it.builtins["len"], k.get(D.cache, "cached_objects")), 0))


def same_id(k):
    """cached and immediate writes of the same metadata return the same reference"""
    Git(k)
    k.ext.install_path_contract()
    r1, r2 = k.realm("realm1"), k.realm("realm2")
    k.assume(r1 != r2)
    json = k.str("json")
    k.it.contracts["dataladmetadatamodel.metadata.Metadata.to_json"] = lambda it, s: json
    o = k.new("metadata.Metadata")
    m = k.new(MGM, "Metadata")
    a = k.attempt(lambda: k.m(m, "map_out_impl", o, r1, False))
    k.prove("same/immediate", a.ok, why(k, a))
    b = mgm(k, "cache_realm", r2)
    k.prove("same/cache", b.ok, why(k, b))
    D = cached(k, r2)
    b = k.attempt(lambda: k.m(m, "map_out_impl", o, r2, False))
    k.prove("same/cached", b.ok, why(k, b))
    if not (a.ok and b.ok):
        return
    k.prove("same/location", k.eq(k.get(a.value, "location"), k.get(b.value, "location")))
    k.prove("same/class", k.eq(k.get(a.value, "class_name"), k.get(b.value, "class_name")))
    pending = k.get(D, "cached_objects")
    k.prove("same/metadata-is-pending", bi.contains(k.it, pending, (json, k.ext.blob_hash(json))))
    loc = k.get(b.value, "location")
    o = k.ext.git.find(r1, loc)
    k.prove("same/reference-is-pending", o is not None and bi.contains(k.it, pending, (o.payload, loc)))


def cache_twice(k):
    """a realm is cached at most once, and only a cached realm is flushed"""
    Git(k)
    r = k.realm()
    a = mgm(k, "flush_realm", r)
    k.prove("twice/flush-needs-a-cache", not a.ok and k.is_exc(a.exc, "RuntimeError"))
    a = mgm(k, "cache_realm", r)
    k.prove("twice/cache", a.ok)
    c = cached(k, r)
    a = mgm(k, "cache_realm", r)
    k.prove("twice/no-second-cache", not a.ok and k.is_exc(a.exc, "RuntimeError") and cached(k, r) is c)


# ------------------------------------------------------------------ trees

def tree_write(k):
    """the cache of a file tree is flushed before its reference is returned or an error leaves it"""
    Git(k, faults=True)
    k.ext.install_path_contract()
    r = k.realm()
    mtree = k.new("mtreenode.MTreeNode", k.cls("metadata.Metadata"))
    o = k.new("filetree.FileTree", mtree)
    k.get(mtree, "saved_on")
    E = Elements(k, {id(o): {"write_out": "body"}})
    content = k.str("content")
    ref = k.new("mapper.reference.Reference", "MTreeNode", k.ext.fresh_hash("tree"))
    broken = k.bool("tree_cannot_be_written")
    seen = []

    def write(s):
        c = cached(k, r)
        seen.append(c is not None)
        if c is not None:
            k.m(c, "cache_blob", r, content)
        if broken:
            k.it.throw("RuntimeError", "broken")
        return ref
    E.own[id(mtree)] = {"write_out": write}
    a = k.attempt(lambda: k.m(o, "write_out", r))
    failed = bool(events(k, "gitfail"))
    k.prove("tree/cached-while-written", seen == [True])
    k.prove("tree/not-cached-afterwards", cached(k, r) is None)
    k.prove("tree/errors-are-reported", a.ok is not (failed or broken), why(k, a))
    if a.ok:
        k.cover("tree/written")
        k.prove("tree/reference", a.value is ref)
        stored(k, k.ext.git, r, content, "tree")
    else:
        k.cover("tree/failed")


HARNESSES = [blob_id, flush, cache, flush_failure, flush_realm, flush_realm_failure, same_id, cache_twice, tree_write]
