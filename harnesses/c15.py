"""C15 Failures of git commands are reported, never swallowed: postconditions of
the functions of gitbackend/subprocess.py"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import HList, Lit, S, Unsupported
from pyvc.gitmodel import Git
from pyvc.interp import BytesV

SP = "mapper.gitmapper.gitbackend.subprocess"


def failed(k):
    for s in k.ctx.peek(k.ctx.events, "segs"):
        if s.v[0] == "gitfail":
            return s.v
    return None


def checked(k, name, *args):
    """a failing command raises RuntimeError with the output; without a failure there is no error"""
    a = k.attempt(lambda: k.call(k.func(f"{SP}.{name}"), *args))
    f = failed(k)
    if f is None:
        k.cover(f"{name}/success")
        k.prove(f"{name}/no-failure-no-error", a.ok, repr(a.exc))
        return a.value if a.ok else None
    k.cover(f"{name}/failure")
    k.prove(f"{name}/failure-raises-RuntimeError", (not a.ok) and k.is_exc(a.exc, "RuntimeError"))
    if not a.ok:
        k.prove(f"{name}/error-carries-stdout", k.eq(k.get(a.exc, "stdout"), f[3]))
        k.prove(f"{name}/error-carries-stderr", k.eq(k.get(a.exc, "stderr"), f[4]))
        parts = []
        for x in a.exc.slots["args"]:
            if getattr(x, "opaque", False):
                raise Unsupported("a message of unknown structure")
            parts += getattr(x, "parts", [x])
        k.prove(f"{name}/message-contains-output",
                any(bi.is_str(x) and not isinstance(x, str) and any(p.eq(f[4]) for p in bi.decompose(x) )
                    for x in parts if not hasattr(x, "parts") and x is not None and hasattr(x, "sort")))
    return None


def setup(k):
    g = Git(k, faults=True)
    r = k.realm()
    return g, r


def save_str(k):
    g, r = setup(k)
    s = k.str("content")
    h = checked(k, "git_save_str", r, s)
    if h is not None:
        o = g.resolve(r, h)
        k.prove("git_save_str/stored-exactly", o is not None and k.eq(o.payload, s))
        k.prove("git_save_str/in-the-realm", o is not None and k.eq(o.realm, r))


def save_json(k):
    g, r = setup(k)
    s = k.str("content")
    doc = k.dict(("a", s), ("b", None))
    h = checked(k, "git_save_json", r, doc)
    if h is not None:
        g.faults = False
        v = k.call(k.func(f"{SP}.git_load_json"), r, h)
        k.prove("git_save_json/round-trip", k.eq(v, doc))


def load_str(k):
    g, r = setup(k)
    h = k.ext.fresh_hash()
    s = k.str("content")
    g.add(r, "blob", h, s)
    v = checked(k, "git_load_str", r, h)
    if v is not None:
        k.prove("git_load_str/exact-content", k.eq(v, s))


def missing(k):
    """reading something that does not exist raises"""
    g, r = setup(k)
    h = k.ext.fresh_hash()
    for n in ("git_load_str", "git_load_json", "git_ls_tree", "git_read_tree_node"):
        a = k.attempt(lambda: k.call(k.func(f"{SP}.{n}"), r, h))
        k.prove(f"missing/{n}", (not a.ok) and k.is_exc(a.exc, "RuntimeError"))


def load_json(k):
    g, r = setup(k)
    s = k.str("content")
    doc = k.dict(("a", s))
    h = k.ext.blob_hash(k.ext.json_text(doc))
    g.add(r, "blob", h, k.ext.json_text(doc))
    v = checked(k, "git_load_json", r, h)
    if v is not None:
        k.prove("git_load_json/exact-content", k.eq(v, doc))


def tree(k):
    """save an entry and read it back"""
    g, r = setup(k)
    n = k.name()
    q = z3.StringVal('"')
    k.assume(z3.And(z3.Not(z3.PrefixOf(q, n)), z3.Not(z3.Contains(n, z3.StringVal("\n"))),
                    z3.Not(z3.Contains(n, z3.StringVal("\t")))))
    k.ctx.tables.setdefault("nosep", {})[n.sexpr()] = "\t\n"
    h = k.ext.fresh_hash()
    fn = "git_save_tree_node" if k.bool() else "git_save_tree"
    t = checked(k, fn, r, k.list(("100644", "blob", h, n)))
    if t is not None:
        o = g.resolve(r, t)
        k.prove(f"{fn}/stored", o is not None)
        e = k.ctx.get(o.payload, "segs")
        k.prove(f"{fn}/entries", len(e) == 1 and k.eq(e[0].v, ("100644", "blob", h, n)))


def read_tree(k):
    g, r = setup(k)
    h, t = k.ext.fresh_hash(), k.ext.fresh_hash()
    u = k.uuid()
    g.add(r, "tree", t, k.list(("100644", "blob", h, u.term)))
    fn = "git_ls_tree" if k.bool() else "git_read_tree_node"
    v = checked(k, fn, r, t)
    if v is not None:
        k.prove(f"{fn}/lines", k.eq(v, k.list(bi.concat(k.it, ["100644 blob ", h, "\t", u.term]))))


def update_ref(k):
    g, r = setup(k)
    h = k.ext.fresh_hash()
    v = checked(k, "git_update_ref", r, "refs/datalad/x", h)
    if failed(k) is None:
        x = g.find_ref(r, "refs/datalad/x")
        k.prove("git_update_ref/moved", x is not None and k.eq(x, h))
    else:
        k.prove("git_update_ref/unchanged", g.find_ref(r, "refs/datalad/x") is None)


def others(k):
    """deleting references, initialising and fetching"""
    g, r = setup(k)
    c = k.choose(4)
    if c == 0:
        checked(k, "git_delete_ref", r, "refs/datalad/x")
        want = ("delete-ref",)
    elif c == 1:
        checked(k, "git_init", r)
        want = ("init",)
    elif c == 2:
        checked(k, "git_fetch_object", r, k.realm("remote"), k.ext.fresh_hash())
        want = ("fetch",)
    else:
        checked(k, "git_fetch_reference", r, k.realm("remote"), "refs/datalad/x", "refs/datalad/x")
        want = ("fetch",)
    ev = [s.v[0] for s in k.ctx.peek(k.ctx.events, "segs")]
    if failed(k) is None:
        k.prove("others/executed", any(e in want for e in ev))


def probe(k):
    """only the existence probe maps failure to a negative answer"""
    g, r = setup(k)
    h = k.ext.fresh_hash()
    a = k.attempt(lambda: k.call(k.func(f"{SP}.git_object_exists_locally"), r, h))
    k.prove("probe/no-error", a.ok)
    exists = any(s.v[0] == "avail" for s in k.ctx.peek(k.ctx.events, "segs"))
    k.prove("probe/answer", a.ok and k.eq(a.value, exists))


HARNESSES = [save_str, save_json, load_str, missing, load_json, tree, read_tree, update_ref, others, probe]
