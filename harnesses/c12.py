"""C12 Remote realms are read through a cache and never written: contracts of
localcache.py, adapt_for_remote, Reference.is_remote and MappableObject.write_out"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import Lit, Obj
from pyvc.gitmodel import Git

LC = "mapper.gitmapper.localcache"
SP = "mapper.gitmapper.gitbackend.subprocess"
PATTERNS = ("git@", "git:", "http:", "https:", "ssh:")


def events(k, *kinds):
    return [s.v for s in k.ctx.peek(k.ctx.events, "segs") if s.v[0] in kinds]


def remote_realm(k, name="remote"):
    return k.remote(name)


def is_remote(k):
    """is_remote holds exactly for the documented prefixes; is_local is its negation"""
    t = k.str("realm")
    want = z3.Or([z3.PrefixOf(z3.StringVal(p), t) for p in PATTERNS])
    R = k.cls("mapper.reference.Reference")
    a = k.m(R, "is_remote", t)
    b = k.m(R, "is_local", t)
    k.prove("is_remote", bi.boolterm(bi.truthy(k.it, a)) == want)
    k.prove("is_local", bi.boolterm(bi.truthy(k.it, b)) == z3.Not(want))


def cache_path(k, r):
    """the cache of a remote realm; it is not remote itself, see cache_location"""
    c = k.ext.path_text(k.call(k.func(f"{LC}.get_repo_cache_path"), r))
    if not isinstance(c, str):
        k.ctx.fact(z3.Not(z3.Function("is_remote_url", z3.StringSort(), z3.BoolSort())(c)))
    return c


def cache_location(k):
    """different remotes have different caches; the cache is a local repository"""
    Git(k)
    r1, r2 = remote_realm(k, "r1"), remote_realm(k, "r2")
    c1, c2 = cache_path(k, r1), cache_path(k, r2)
    k.prove("cache/injective", bi.boolterm(bi.eq(k.it, c1, c2)) == (r1 == r2))
    g1 = k.ext.path_text(k.call(k.func(f"{LC}.get_cache_realm"), r1))
    k.prove("cache/realm-is-cache-path", bi.eq(k.it, g1, c1))
    k.prove("cache/below-the-cache-directory",
            bi.untrm(bi.decompose(c1)[0]).eq(__import__("pyvc.externals").externals.pathnorm(z3.String("user_cache_dir"))))


READERS = ["git_load_str", "git_load_json", "git_read_tree_node", "git_ls_tree", "git_ls_tree_recursive"]


def _read(k, ref, label, is_ref):
    g = Git(k, faults=True)
    r = remote_realm(k)
    c = cache_path(k, r)
    content = k.str("content")
    doc = k.ext.json_text(k.list(content))
    fn = READERS[k.choose(3)]
    if is_ref:
        h = k.ext.fresh_hash()
        g.add_ref(r, ref, h)
    else:
        h = ref
    if fn in ("git_load_str", "git_load_json"):
        g.add(r, "blob", h, doc)
    else:
        g.add(r, "tree", h, k.list(("100644", "blob", k.ext.fresh_hash(), k.uuid().term)))
    a = k.attempt(lambda: k.call(k.func(f"{SP}.{fn}"), r, ref))
    fetches = events(k, "fetch")
    reads = events(k, "read")
    inits = events(k, "init")
    writes = events(k, "save", "update-ref", "delete-ref")
    for e in reads:
        k.prove(f"{label}/reads-only-from-the-cache", bi.eq(k.it, e[1], c))
    for e in events(k, "probe"):
        k.prove(f"{label}/probes-only-the-cache", bi.eq(k.it, e[1], c))
    for e in inits:
        k.prove(f"{label}/initialises-only-the-cache", bi.eq(k.it, e[1], c))
    for e in fetches:
        k.prove(f"{label}/fetches-into-the-cache", bi.eq(k.it, e[1], c))
        k.prove(f"{label}/fetches-from-the-remote", bi.eq(k.it, e[2], r))
        k.prove(f"{label}/fetches-the-object", bi.eq(k.it, e[3], ref))
        if is_ref:
            k.prove(f"{label}/fetches-the-reference-into-the-same-name", e[4] is not None and bi.eq(k.it, e[4], ref))
            k.prove(f"{label}/replaces-an-outdated-reference", e[5])
    k.prove(f"{label}/writes-nothing", len(writes) == 0)
    ev = [e[0] for e in events(k, "fetch", "read", "avail", "init", "gitfail")]
    if a.ok:
        k.cover(f"{label}/loaded")
        k.prove(f"{label}/read", len(reads) > 0)
        if is_ref:
            k.prove(f"{label}/references-are-always-fetched", len(fetches) >= 1 and ev.index("fetch") < ev.index("read"))
        else:
            k.prove(f"{label}/available-before-read", "avail" in ev and ev.index("avail") < ev.index("read"))
        if fn == "git_load_str":
            k.prove(f"{label}/content", k.eq(a.value, doc))
    else:
        k.prove(f"{label}/error-only-after-failure", "gitfail" in ev)


def read_object(k):
    """loading an object makes it available in the cache first and reads it from there"""
    h = k.ext.fresh_hash()
    k.ctx.fact(z3.Not(z3.PrefixOf(z3.StringVal("refs"), h)))
    _read(k, h, "object", False)


def read_reference(k):
    """references are fetched anew on each load"""
    _read(k, "refs/datalad/dataset-uuid-set", "reference", True)


def fetch_twice(k):
    """a second load of a reference fetches again"""
    g = Git(k)
    r = remote_realm(k)
    ref = "refs/datalad/dataset-uuid-set"
    h1, h2 = k.ext.fresh_hash("h1"), k.ext.fresh_hash("h2")
    u = k.uuid()
    g.add_ref(r, ref, h1)
    g.add(r, "tree", h1, k.list())
    g.add(r, "tree", h2, k.list(("100644", "blob", k.ext.fresh_hash(), u.term)))
    k.assume(h1 != h2)
    k.call(k.func(f"{SP}.git_ls_tree"), r, ref)
    g.add_ref(r, ref, h2)
    v = k.call(k.func(f"{SP}.git_ls_tree"), r, ref)
    k.prove("twice/new-content", k.eq(k.call(k.it.builtins["len"], v), 1))


def local_direct(k):
    """local realms are accessed directly"""
    g = Git(k)
    r = k.realm()
    h = k.ext.fresh_hash()
    c = k.str("content")
    g.add(r, "blob", h, c)
    v = k.call(k.func(f"{SP}.git_load_str"), r, h)
    k.prove("local/content", k.eq(v, c))
    k.prove("local/direct", all(bi.eq(k.it, e[1], r) is True or k.ctx.entails(bi.boolterm(bi.eq(k.it, e[1], r)))
                                for e in events(k, "read")))
    k.prove("local/no-cache", not events(k, "fetch", "init", "probe"))


def write_refused(k):
    """write_out of a mapped object to a remote realm raises and changes nothing"""
    g = Git(k)
    r = remote_realm(k)
    T = ["text.Text", "mtreenode.MTreeNode", "versionlist.VersionList", "uuidset.UUIDSet",
         "versionlist.TreeVersionList", "metadata.Metadata", "filetree.FileTree", "metadatarootrecord.MetadataRootRecord"]
    t = T[k.choose(len(T))]
    if t == "text.Text":
        o = k.new(t, k.str("content"))
    elif t == "mtreenode.MTreeNode":
        o = k.new(t, k.cls("text.Text"))
    elif t == "metadatarootrecord.MetadataRootRecord":
        o = k.new(t, k.uuid(), k.str("v"), None, None)
    else:
        o = k.new(t)
    n = o.slots["mtree"] if t == "filetree.FileTree" else o
    # arbitrary states of a mapped object: saved somewhere else or not at all, with or without a realm and reference
    if k.bool("has_realm"):
        loc = k.ext.fresh_hash()
        k.ctx.put(n, "realm", k.realm("own") if k.bool("local") else r)
        k.ctx.put(n, "reference", k.new("mapper.reference.Reference", n.cls.name, loc))
        if k.bool("saved"):
            k.m(n, "set_saved_on", k.get(n, "realm"))
    realm, ref = n.slots["realm"], n.slots["reference"]
    loc = None if ref is None else ref.slots["location"]
    a = k.attempt(lambda: k.m(o, "write_out", r, force_write=k.bool("force")))
    k.prove("refused/raises", (not a.ok) and k.is_exc(a.exc, "RuntimeError"))
    k.prove("refused/nothing-stored", not events(k, "save", "update-ref", "fetch", "init", "delete-ref"))
    k.prove("refused/realm-unchanged", bi.eq(k.it, n.slots["realm"], realm))
    k.prove("refused/reference-unchanged", n.slots["reference"] is ref and (
        ref is None or bi.eq(k.it, ref.slots["location"], loc)))
    k.prove("refused/still-mapped", n.slots["mapped"] is True)


HARNESSES = [is_remote, cache_location, read_object, read_reference, fetch_twice, local_direct, write_refused]
