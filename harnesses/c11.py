"""C11 The reference store is updated only under the realm lock: contracts of
lock_backend/unlock_backend/locked_backend and of flush_object_references"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import HDict, Lit, Obj, PyRaise
from pyvc.gitmodel import Git
from pyvc.interp import BoundV

U = "mapper.gitmapper.utils"


def lockdict(k):
    return k.it.module(f"{'dataladmetadatamodel'}.{U}").slots["read_write_locked"]


def events(k, *kinds):
    return [s.v for s in k.ctx.peek(k.ctx.events, "segs") if s.v[0] in kinds]


def path(k, r):
    return k.call(k.it.module("pathlib").slots["Path"], r)


def setup_locks(k):
    """.git exists after it was looked at once"""
    Git(k)


def held(k, r, realm_path=None):
    """is the lock of realm r held, according to the lock events"""
    n = 0
    for e in events(k, "lock", "unlock"):
        n += 1 if e[0] == "lock" else -1
    return n


def counter(k, p):
    d = lockdict(k)
    st = k.it.getitem(d, k.it.binop(__import__("ast").Div(), p, ".git"))
    return k.get(st, "counter"), k.get(st, "lock")


def arbitrary_state(k, p):
    """the class invariant of a lock state: the lock is held iff the counter is positive"""
    n = k.int("counter")
    k.ctx.fact(n >= 0)
    ip = k.call(k.it.module("fasteners").slots["InterProcessLock"], "lock")
    k.ctx.put(ip, "held", n > 0)
    st = k.new(f"{U}.LockState", n, ip)
    key = k.it.binop(__import__("ast").Div(), p, ".git")
    k.it.setitem(lockdict(k), key, st)
    return n, st, ip


def inv(k, st, label):
    c = k.get(st, "counter")
    k.prove(f"{label}/held-iff-counter-positive", k.eq(st.slots["lock"].slots["held"], k.truth(bi.compare(k.it, __import__("ast").Gt(), c, 0))))
    k.prove(f"{label}/counter-not-negative", bi.compare(k.it, __import__("ast").GtE(), c, 0))


def lock_once(k):
    """lock_backend increments the counter and holds the lock; it is acquired only by the outermost call"""
    setup_locks(k)
    p = path(k, k.realm())
    n, st, ip = arbitrary_state(k, p)
    k.call(k.func(f"{U}.lock_backend"), p)
    inv(k, st, "lock")
    k.prove("lock/counter", k.eq(k.get(st, "counter"), n + 1))
    k.prove("lock/held", k.eq(ip.slots["held"], True))
    ev = events(k, "lock", "unlock")
    k.prove("lock/acquired-by-outermost", z3.BoolVal(len(ev) == 1 and ev[0][0] == "lock") == (n == 0))
    k.prove("lock/nothing-else", len(ev) <= 1 and all(e[0] == "lock" and e[1] is ip for e in ev))


def failed_acquisition(k):
    """an acquisition that fails is reported, and leaves the lock as it was"""
    setup_locks(k)
    p = path(k, k.realm())
    n, st, ip = arbitrary_state(k, p)
    k.ctx.tables["path_exists"] = True

    def fail(o):
        if k.bool("acquisition_fails"):
            k.ctx.tables["failed"] = True
            k.it.throw("OSError", "acquire")
    k.ctx.tables["lock_acquire"] = fail
    k.ctx.tables["failed"] = False
    seen = []
    if k.bool("with_block"):
        a = k.attempt(lambda: k.it.with_cm(k.call(k.func(f"{U}.locked_backend"), p), lambda v: seen.append(1)))
    else:
        a = k.attempt(lambda: k.call(k.func(f"{U}.lock_backend"), p))
    if k.ctx.tables["failed"]:
        k.cover("failed-acquisition")
        k.prove("failed/is-reported", not a.ok and k.is_exc(a.exc, "OSError"))
        k.prove("failed/body-not-executed", not seen)
        k.prove("failed/counter-unchanged", k.eq(k.get(st, "counter"), n))
        inv(k, st, "failed")
    else:
        k.prove("failed/no-other-error", a.ok, repr(a.exc))


def unlock_once(k):
    """unlock_backend decrements the counter; the lock is released exactly by the outermost release"""
    setup_locks(k)
    p = path(k, k.realm())
    n, st, ip = arbitrary_state(k, p)
    k.ctx.tables["path_exists"] = True
    a = k.attempt(lambda: k.call(k.func(f"{U}.unlock_backend"), p))
    if k.branch(n == 0):
        k.prove("unlock/without-lock-raises", not a.ok)
        k.prove("unlock/without-lock-unchanged", k.eq(k.get(st, "counter"), 0))
        k.prove("unlock/without-lock-not-released", not events(k, "unlock"))
        return
    k.cover("unlock")
    k.prove("unlock/no-error", a.ok, repr(a.exc))
    inv(k, st, "unlock")
    k.prove("unlock/counter", k.eq(k.get(st, "counter"), n - 1))
    ev = events(k, "unlock")
    k.prove("unlock/released-by-outermost", z3.BoolVal(len(ev) == 1) == (n == 1))
    k.prove("unlock/nothing-else", len(events(k, "lock")) == 0 and all(e[1] is ip for e in ev))


def fresh_realm(k):
    """the first acquisition for a realm"""
    setup_locks(k)
    p = path(k, k.realm())
    k.call(k.func(f"{U}.lock_backend"), p)
    c, ip = counter(k, p)
    k.prove("fresh/counter", k.eq(c, 1))
    k.prove("fresh/held", k.eq(ip.slots["held"], True))


def with_block(k):
    """with locked_backend(realm): the lock is held in the body, and released afterwards, also if the body raises"""
    setup_locks(k)
    p = path(k, k.realm())
    n, st, ip = arbitrary_state(k, p)
    k.ctx.tables["path_exists"] = True
    fails = k.bool("body_raises")
    seen = []

    def body(v):
        seen.append(1)
        k.prove("with/held-in-body", k.eq(ip.slots["held"], True))
        k.prove("with/counter-in-body", k.eq(k.get(st, "counter"), n + 1))
        if fails:
            k.it.throw("RuntimeError", "body")
    a = k.attempt(lambda: k.it.with_cm(k.call(k.func(f"{U}.locked_backend"), p), body))
    k.prove("with/body-executed", len(seen) == 1)
    k.prove("with/outcome-of-body", a.ok == (not fails))
    k.prove("with/counter-restored", k.eq(k.get(st, "counter"), n))
    inv(k, st, "with")
    k.cover("with/raises" if fails else "with/ok")


def independent(k):
    """locks of different realms are independent"""
    setup_locks(k)
    r1, r2 = k.realm("r1"), k.realm("r2")
    p1, p2 = path(k, r1), path(k, r2)
    k.assume(bi.boolterm(bi.neg(bi.eq(k.it, k.ext.path_text(p1), k.ext.path_text(p2)))))
    n1, st1, ip1 = arbitrary_state(k, p1)
    n2, st2, ip2 = arbitrary_state(k, p2)
    k.ctx.tables["path_exists"] = True
    if k.bool():
        k.attempt(lambda: k.call(k.func(f"{U}.lock_backend"), p1))
    else:
        k.attempt(lambda: k.call(k.func(f"{U}.unlock_backend"), p1))
    k.prove("independent/counter", k.eq(k.get(st2, "counter"), n2))
    k.prove("independent/lock", z3.BoolVal(True) if ip2.slots["held"] is True else bi.boolterm(ip2.slots["held"]) == (n2 > 0))
    k.prove("independent/no-operation", all(e[1] is ip1 for e in events(k, "lock", "unlock")))


def different_files(k):
    """different realms have different lock files, the same realm has one"""
    setup_locks(k)
    r1, r2 = k.realm("r1"), k.realm("r2")
    p1, p2 = path(k, r1), path(k, r2)
    k.call(k.func(f"{U}.lock_backend"), p1)
    k.call(k.func(f"{U}.lock_backend"), p2)
    _, ip1 = counter(k, p1)
    _, ip2 = counter(k, p2)
    same = bi.eq(k.it, k.ext.path_text(p1), k.ext.path_text(p2))
    k.prove("files/one-lock-per-realm", (bi.boolterm(same)) == z3.BoolVal(ip1 is ip2))
    k.prove("files/one-file-per-realm", bi.boolterm(same) == bi.boolterm(bi.eq(k.it, ip1.slots["path"], ip2.slots["path"])))


def flush_under_lock(k):
    """flush_object_references reads, extends and publishes the store while it holds the lock of the realm"""
    g = Git(k, faults=True)
    g.unknown = lambda realm, cmd, ref: g.fail(cmd, realm)
    r = k.realm()
    p = path(k, r)
    k.ctx.tables["path_exists"] = True
    OR = "mapper.gitmapper.objectreference"
    TU = "mapper.gitmapper.treeupdater"
    h = k.ext.fresh_hash("object")
    mod = k.it.module(f"dataladmetadatamodel.{OR}")
    et = k.cls(f"{TU}.EntryType")
    k.call(k.func(f"{OR}.add_tree_reference"), h)
    n, st, ip = arbitrary_state(k, p)
    publish = k.it.contracts

    def add_paths(it, slots):
        k.ext.event("add_paths", slots["repo"])
        k.prove("flush/extends-under-lock", k.eq(ip.slots["held"], True))
        if k.bool("add_paths_fails"):
            it.throw("ValueError", "conflict")
        return k.ext.fresh_hash("tree")
    k.it.contracts[f"dataladmetadatamodel.{TU}.add_paths"] = add_paths

    def get_dir(it, slots):
        if k.it.truth(k.eq(slots["object_hash"], "refs/datalad/object-references-2.0")):
            k.ext.event("get_dir", slots["repo"])
            k.prove("flush/reads-under-lock", k.eq(ip.slots["held"], True))
            if k.bool("no_store"):
                it.throw("RuntimeError", "no store")
        return k.list()
    k.it.contracts[f"dataladmetadatamodel.{TU}._get_dir"] = get_dir

    def update_ref(it, slots):
        if k.it.truth(k.eq(slots["ref_name"], "refs/datalad/object-references-2.0")):
            k.ext.event("publish", slots["repo_dir"])
            k.prove("flush/publishes-under-lock", k.eq(ip.slots["held"], True))
            k.prove("flush/lock-of-that-realm", k.eq(slots["repo_dir"], r))
            if k.bool("publish_fails"):
                it.throw("RuntimeError", "update-ref")
    k.it.contracts[f"dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess.git_update_ref"] = update_ref
    a = k.attempt(lambda: k.call(k.func(f"{OR}.flush_object_references"), p))
    inv(k, st, "flush")
    k.prove("flush/lock-released", k.eq(k.get(st, "counter"), n))
    # one step: the lock is not released between reading and publishing
    ev = [e[0] for e in events(k, "lock", "unlock", "get_dir", "add_paths", "publish")]
    if "publish" in ev:
        k.cover("flush/published")
        k.prove("flush/read-before-publish", "get_dir" in ev and ev.index("get_dir") < ev.index("publish"))
        seg = ev[ev.index("get_dir"):ev.index("publish")] if "get_dir" in ev else ["unlock"]
        k.prove("flush/one-step", "unlock" not in seg)


HARNESSES = [lock_once, failed_acquisition, unlock_once, fresh_realm, with_block, independent, different_files, flush_under_lock]
