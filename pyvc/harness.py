"""
pyvc harness: the interface in which the specifications (harnesses/*.py) are
written. A harness is a Python function h(k); it builds arbitrary symbolic
states that satisfy the preconditions, executes the functions of /repo on them
and states the postconditions with k.prove().
"""
import json
import os
import sys
import time
import traceback

import z3

from . import builtins_ as bi
from . import loops
from .core import (
    B, I, MISSING, S, SeqS, Val, Comp, Ctx, DSet, Env, Fam, GenV, HDict, HList, HSet, Lit, Obj,
    PathDead, PathV, PyRaise, ReturnSig, Sig, Src, SrcT, StrSeq, Unsupported, is_term,
)
from .externals import Externals, isname, joinpath, needs_quote, new_uuid, parsepath
from .interp import PKG, Builtin, BytesV, ClsV, FuncV, Interp, PropV, StaticV

REPO = os.environ.get("PYVC_REPO", "/repo")


class Report:
    def __init__(self):
        self.obls = {}
        self.covers = {}
        self.sentinels = 0

    def obligation(self, label, status, backend, seconds, detail, model):
        o = self.obls.setdefault(label, {"label": label, "paths": 0, "ok": 0, "failed": 0, "unknown": 0,
                                         "backends": {}, "seconds": 0.0})
        o["paths"] += 1
        o[status] += 1
        o["backends"][backend] = o["backends"].get(backend, 0) + 1
        o["seconds"] += seconds
        if status != "ok" and "detail" not in o:
            o["detail"] = detail
            o["model"] = model
        if os.environ.get("PYVC_TRACE"):
            print("OBL", label, status, backend, round(seconds, 3), detail[:200] if status != "ok" else "",
                  model[:600] if status != "ok" else "", file=sys.stderr)


class Attempt:
    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc


class K:
    def __init__(self, timeout_ms=10000):
        self.report = Report()
        self.ctx = Ctx(self.report, timeout_ms)
        self.it = Interp(self.ctx, REPO, Externals)
        self.ext = self.it.externals
        self.mode = "unbounded"
        self.prefix = ""
        self.realms = []
        for m in repo_modules():
            self.it.module(m)

    # ---- calling code
    def cls(self, dotted):
        if not dotted.startswith(PKG):
            dotted = f"{PKG}.{dotted}"
        return self.it.lookup_class(dotted)

    func = cls

    def new(self, dotted, *args, **kw):
        return self.it.call(self.cls(dotted) if isinstance(dotted, str) else dotted, list(args), kw)

    def call(self, obj, *args, **kw):
        return self.it.call(obj, list(args), kw)

    def m(self, obj, name, *args, **kw):
        return self.it.call_method(obj, name, list(args), kw)

    def get(self, obj, name):
        return self.it.getattr(obj, name)

    def attempt(self, fn):
        try:
            return Attempt(True, fn())
        except PyRaise as e:
            return Attempt(False, exc=e.exc)

    def expect_raise(self, label, fn, *excs):
        a = self.attempt(fn)
        if a.ok:
            self.prove(label, False, "no exception")
        else:
            ok = self.it.exc_matches(a.exc, tuple(self.it.builtins[e] if isinstance(e, str) else e for e in excs)) \
                if excs else True
            self.prove(label, ok, f"raised {a.exc!r}")
        return a

    def is_exc(self, e, *names):
        return self.it.exc_matches(e, tuple(self.it.builtins[n] if isinstance(n, str) else n for n in names))

    # ---- logic
    def prove(self, label, f, detail=""):
        if f is MISSING or f is None:
            f = False
        return self.ctx.prove(self.prefix + label, f, detail)

    def eq(self, a, b):
        return bi.eq(self.it, a, b)

    def truth(self, v):
        return bi.truthy(self.it, v)

    def branch(self, f):
        return self.ctx.branch(f)

    def assume(self, f):
        self.ctx.assume(f if not isinstance(f, bool) else z3.BoolVal(f))

    def choose(self, n, name="choice"):
        return self.ctx.choose(n, name)

    def cover(self, label):
        """this point must be reachable"""
        c = self.report.covers.setdefault(self.prefix + label, False)
        if not c and self.ctx.feasible():
            self.report.covers[self.prefix + label] = True

    # ---- symbols
    def str(self, name="s"):
        return self.ctx.fresh(name, S)

    def nonempty(self, name="s"):
        t = self.ctx.fresh(name, S)
        self.ctx.fact(z3.Length(t) > 0)
        return t

    def int(self, name="n"):
        return self.ctx.fresh(name, I)

    def val(self, name="v"):
        return self.ctx.fresh(name, Val)

    def bool(self, name="b"):
        return self.ctx.branch(self.ctx.fresh(name, B))

    def opt(self, v, name="none"):
        """None or v"""
        return None if self.bool(name) else v

    def uuid(self, name="uuid"):
        return bi.UuidV(new_uuid(self.it, name))

    def name(self, name="name"):
        t = self.ctx.fresh(name, S)
        self.name_facts(t)
        return t

    def name_facts(self, t):
        c = self.ctx
        c.fact(isname(t))
        c.fact(z3.Length(t) > 0)
        c.fact(z3.Not(z3.Contains(t, z3.StringVal("/"))))
        c.fact(t != z3.StringVal("."))
        c.fact(t != z3.StringVal(".."))

    def path(self, name="path", nonempty=False):
        t = self.ctx.fresh(name, SeqS)
        if nonempty:
            self.ctx.fact(z3.Length(t) > 0)
        return PathV(t)

    def realm(self, name="realm"):
        """the text of an arbitrary local realm"""
        t = self.ctx.fresh(name, S)
        self.ext.install_remote_contract()
        self.ctx.fact(z3.Not(z3.Function("is_remote_url", S, B)(t)))
        self.ctx.fact(t != z3.StringVal(""))
        self.ctx.tables.setdefault("pathtext", set()).add(t.sexpr())
        self.realms.append(t)
        return t

    def remote(self, name="remote"):
        """the text of an arbitrary remote realm"""
        t = self.ctx.fresh(name, S)
        self.ext.install_remote_contract()
        self.ctx.fact(z3.Function("is_remote_url", S, B)(t))
        self.ctx.fact(t != z3.StringVal(""))
        return t

    def list(self, *xs):
        return HList([Lit(x) for x in xs])

    def dict(self, *items):
        return HDict([DSet(a, b) for a, b in items])

    # ---- collections of any size
    def invertible(self, name, arity=1, sort=S):
        """a function from indices to keys that is injective in its last index"""
        f = z3.Function(f"{name}@{self.uid()}", *([I] * arity), sort)
        g = z3.Function(f"{f.name()}^-1", *([I] * (arity - 1)), sort, I)
        self.ctx.tables.setdefault("inv", {})[f.name()] = g
        return f

    def injective(self, f, src):
        """the facts of an invertible function over a source"""
        g = self.ctx.tables["inv"][f.name()]
        v = [z3.Const(f"~i!{self.uid()}.{n}", I) for n in range(f.arity())]
        self.ctx.ufact(src.t, tuple(v), tuple(v), g(*v[:-1], f(*v)) == v[-1])

    def uid(self):
        self.ctx.counter += 1
        return self.ctx.counter

    def src(self, name="n"):
        s = SrcT(name)
        src = Src(s)
        self.ctx.fact(src.n >= 0)
        return src

    def srct(self, name, arity):
        return SrcT(name, arity)

    def var(self, name="i"):
        return z3.Const(f"~{name}!{self.uid()}", I)

    def fam(self, name, cls, slots, arity=1, on_create=None):
        """a family of objects; slots: name -> function of the indices (or a constant)"""
        dotted = cls

        def init(key, idx, o):
            v = slots.get(key, MISSING)
            return v(*idx) if callable(v) and not isinstance(v, z3.FuncDeclRef) else (
                v(*idx) if isinstance(v, z3.FuncDeclRef) else v)
        c = self.cls(dotted) if isinstance(dotted, str) and dotted not in ("dict", "list") else None
        f = Fam(name, c, init, arity, on_create)
        if dotted == "dict":
            f.template = HDict()
        elif dotted == "list":
            f.template = HList()
        return f

    def generic(self, fam, *idx):
        """the member at bound variables (for comprehensions)"""
        return self.ctx._new_instance(fam, fam.cls, tuple(idx))

    def member(self, fam, *idx):
        return self.ctx.fam_obj(fam, idx)

    # ---- running
    def run(self, h, label):
        self.prefix = ""
        outs = self.ctx.explore(lambda: self._run(h))
        return outs

    def split(self, fn):
        """the rest of a harness: all its paths are explored from the current state"""
        n = 0
        for o in self.ctx.explore(lambda: self._run(lambda k: fn())):
            n += 1
            if o.kind != "ok":
                raise Unsupported(f"split: {o.kind}")
        self.splits = getattr(self, "splits", 0) + n

    def _run(self, h):
        try:
            return h(self)
        except PyRaise as e:
            self.ctx.prove("no-unexpected-exception", False, f"raised {describe(self.it, e.exc)}")


def describe(it, exc):
    n = getattr(getattr(exc, "cls", None), "name", exc)
    args = exc.slots.get("args") if isinstance(exc, Obj) else None
    return f"{n}{args}"


def repo_modules():
    out = []
    base = os.path.join(REPO, PKG)
    for d, _, fs in os.walk(base):
        rel = os.path.relpath(d, REPO).replace(os.sep, ".")
        if ".tests" in rel or rel.endswith("tests") or "__pycache__" in rel:
            continue
        for f in sorted(fs):
            if f.endswith(".py"):
                if f == "_version.py":
                    continue
                out.append(rel if f == "__init__.py" else f"{rel}.{f[:-3]}")
    return sorted(out)


def run_harness(fn, timeout_ms):
    """run one harness; returns the JSON record"""
    t0 = time.time()
    rec = {"harness": fn.__name__, "mode": "unbounded", "unsupported": None, "error": None}
    k = None
    try:
        k = K(timeout_ms)
        k.mode = rec["mode"]
        outs = k.run(fn, fn.__name__)
        rec["paths"] = len(outs) + getattr(k, "splits", 0)
        if not outs:
            rec["error"] = "vacuous: no path through the harness"
        if not k.report.obls:
            rec["error"] = "vacuous: no obligation"
        bad = [c for c, ok in k.report.covers.items() if not ok]
        if bad:
            rec["error"] = f"vacuous: not reachable: {bad}"
    except Unsupported as e:
        rec["unsupported"] = f"{e} in {k.it.stack[-1] if k and k.it.stack else '-'}"
        if os.environ.get("PYVC_TRACE"):
            traceback.print_exc()
    except RecursionError:
        rec["unsupported"] = "recursion"
    except Exception as e:
        rec["unsupported"] = f"internal: {type(e).__name__}: {e}"
        rec["internal"] = traceback.format_exc()[-3000:]
    if k is not None:
        rec["obligations"] = list(k.report.obls.values())
        rec["functions"] = sorted(k.it.used)
        rec["contracts"] = sorted(k.it.contract_used)
        rec["assumptions"] = sorted(k.ext.assumptions)
        rec["queries"] = k.ctx.nqueries
        rec["confirmations"] = k.ctx.confirmations
        rec["contradictions"] = k.ctx.contradictions
    rec["seconds"] = round(time.time() - t0, 2)
    return rec


def main():
    import importlib
    sys.setrecursionlimit(20000)
    modname, name = sys.argv[1:3]
    timeout = int(os.environ.get("PYVC_TIMEOUT_MS", "10000"))
    mod = importlib.import_module(f"harnesses.{modname}")
    fn = getattr(mod, name)
    print(json.dumps(run_harness(fn, timeout)))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
