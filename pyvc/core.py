"""
pyvc core: symbolic values, path exploration, the solver interface, symbolic
collections and the loop rule (generic iteration with inductive accumulators).

Soundness notes are in DESIGN.md ("The verifier").
"""
import copy
import itertools
import os
import subprocess
import tempfile
import time

import z3

from . import absn

S = z3.StringSort()
I = z3.IntSort()
B = z3.BoolSort()
Val = z3.DeclareSort("Val")          # opaque Python values (JSON content, time stamps, ...)

MISSING = object()

# tables that do not depend on the path (keyed by the kind of a symbol or by a unique name)
LASTING = ("json", "len_decl", "nosep_decl", "hashdecl", "uuid_decl", "inv", "hom")


class Unsupported(Exception):
    """The construct is outside the verified subset"""


class PathDead(BaseException):
    pass


class Sig(BaseException):
    """Control transfer inside interpreted code"""


class PyRaise(Sig):
    def __init__(self, exc):
        self.exc = exc


class ReturnSig(Sig):
    def __init__(self, value):
        self.value = value


class BreakSig(Sig):
    pass


class ContinueSig(Sig):
    pass


class GenAbort(Sig):
    """A consumer left the loop over a generator: the generator is closed"""
    def __init__(self, inner):
        self.inner = inner


class StopVerification(BaseException):
    pass


# --------------------------------------------------------------------------
# values

_alloc = itertools.count(1)


class Obj:
    """A heap object. slots are only changed through Ctx.put"""
    kind = "obj"

    def __init__(self, cls=None, slots=None, **meta):
        self.cls = cls
        self.slots = dict(slots or {})
        self.alloc = next(_alloc)
        self.meta = meta
        ctx = Ctx.current
        self.gen = tuple(ctx.gen) if ctx else ()

    def __repr__(self):
        n = getattr(self.cls, "name", self.cls)
        return f"<{n}#{self.alloc}>"


class HList(Obj):
    kind = "list"

    def __init__(self, segs=()):
        super().__init__("list", {"segs": tuple(segs)})


class HDict(Obj):
    kind = "dict"

    def __init__(self, segs=(), cls="dict"):
        super().__init__(cls, {"segs": tuple(segs)})


class HSet(Obj):
    kind = "set"

    def __init__(self, segs=()):
        super().__init__("set", {"segs": tuple(segs)})


class Env(Obj):
    kind = "env"

    def __init__(self, parent, module, func=None):
        super().__init__("env")
        self.parent = parent
        self.module = module
        self.func = func
        self.globals = set()


# segments of lists: Lit, Comp.  of dicts: Set, Del, Comp (with Set ops).
# of sets: Lit, Comp
class Lit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Lit({self.v!r})"


class DSet:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k = k
        self.v = v

    def __repr__(self):
        return f"DSet({self.k!r}:{self.v!r})"


class DDel:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class DPair:
    """two-level update: outer key, inner key, value"""
    __slots__ = ("k1", "k2", "v")

    def __init__(self, k1, k2, v):
        self.k1 = k1
        self.k2 = k2
        self.v = v


class Comp:
    """for var in [0, limit or n): the segments of the first alternative
    whose guard holds (alternatives are disjoint), in order."""

    def __init__(self, src, var, alts, limit=None, injective=False):
        self.src = src
        self.var = var
        self.alts = alts          # list of (guard formula, tuple of segments)
        self.limit = limit        # restrict to var < limit
        self.injective = injective  # at most one element with a given key
        self.uid = next(_alloc)

    def __repr__(self):
        return f"Comp({self.src},{self.alts},lim={self.limit})"


class Src:
    """A symbolic sequence of unknown length: an instance of a source template"""

    def __init__(self, tmpl, params=()):
        self.t = tmpl
        self.params = tuple(params)

    @property
    def n(self):
        return self.t.nfun(*self.params) if self.params else self.t.nfun()

    def __repr__(self):
        return f"{self.t.name}{list(self.params) if self.params else ''}"


class SrcT(Obj):
    kind = "src"
    ids = itertools.count()

    def __init__(self, name, arity=0):
        super().__init__("src", {"terms": (), "facts": (), "known": {}, "links": ()})
        self.name = f"{name}@{next(SrcT.ids)}"
        self.nfun = z3.Function(f"len_{self.name}", *([I] * arity), I)
        self.arity = arity
        self.alloc = 0


class Fam:
    """A family of objects, indexed by integer terms.

    Either abstract (slots are initialised by init(slotname, idx)) or the
    instances of an object that was allocated in a generic iteration."""

    def __init__(self, name, cls, init, arity, on_create=None):
        self.name = name
        self.cls = cls
        self.init = init
        self.arity = arity
        self.state = Obj("fam", {"objs": (), "updates": ()})
        self.state.alloc = 0
        self.state.kind = "familystate"
        self.state.meta["of"] = self
        self.alloc = next(_alloc)
        self.on_create = on_create


class TupleV(tuple):
    pass


class SegView:
    """keys()/values()/items() of a dict"""

    def __init__(self, d, what):
        self.d = d
        self.what = what


class GenV:
    """A lazy iterable: run(on_yield)"""

    def __init__(self, run, what="generator"):
        self.run = run
        self.what = what
        self.state = Obj("generator", {"used": "no"})


class Poison:
    def __init__(self, why):
        self.why = why


class StrSeq:
    """immutable sequence of strings (path elements): a z3 Seq(String)"""

    def __init__(self, term):
        self.term = term


class PathV:
    """metadata path value: z3 Seq(String) of elements"""

    def __init__(self, term, cls=None):
        self.term = term
        self.cls = cls

    def __repr__(self):
        return f"Path({self.term})"


SeqS = z3.SeqSort(S)


def is_term(v):
    return isinstance(v, z3.ExprRef)


# --------------------------------------------------------------------------


class Outcome:
    def __init__(self, kind, value, items, writes, reads, alloc):
        self.kind = kind          # "ok" or a Sig instance's class name
        self.value = value        # result, or the Sig instance
        self.items = items        # pc items recorded during the run
        self.writes = writes      # dict (container,key) -> (container,key,old,new)
        self.reads = reads        # set of (id(container), key) read before written
        self.alloc = alloc

    def conds(self):
        return [f for k, f in self.items if k == "cond"]


class Ctx:
    current = None

    def __init__(self, report, timeout_ms=10000):
        self.report = report
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.coarse = z3.Solver()       # the same formulas without the theory of texts
        self.coarse.set("timeout", 500)
        self.pc = []
        self.trail = []
        self.gen = []
        self.dec = []
        self.pos = 0
        self.reads = None
        self.readwrites = None
        self.counter = 0
        self.tables = {}
        self.where = ""                 # the decisions of the surrounding explorations
        self.events = Obj("events", {"segs": ()})
        self.events.alloc = 0
        self.events.kind = "list"
        self.glob = Obj("ghost")
        self.glob.alloc = 0
        self.memo = {}
        self.depth = 0
        self.nqueries = 0
        self.confirmations = 0
        self.contradictions = 0
        self.model = None
        self.slow = 0
        self.quick_ms = min(timeout_ms, int(os.environ.get('PYVC_QUICK_MS', '30')))
        Ctx.current = self

    # ---- heap
    def get(self, c, key):
        v = c.slots.get(key, MISSING)
        if v is MISSING:
            if "fam" in c.meta:
                v = self.fam_slot(c, key)
                if v is MISSING:
                    return v
            else:
                return v
        elif "fam" in c.meta:
            v = self.fam_slot(c, key)
        if self.reads is not None:
            k = (id(c), key)
            if k not in self.readwrites:
                self.reads[k] = (c, key)
        return v

    def peek(self, c, key):
        """read without recording a dependency"""
        if "fam" in c.meta:
            return self.fam_slot(c, key)
        return c.slots.get(key, MISSING)

    def put(self, c, key, val):
        if "fam" in c.meta:
            self.fam_slot(c, key)       # bring up to date
            self._put(c, ("ver", key), len(self.peek(c.meta["fam"].state, "updates")))
        self._put(c, key, val)
        if self.readwrites is not None:
            self.readwrites.add((id(c), key))

    def _put(self, c, key, val):
        self.trail.append((c, key, c.slots.get(key, MISSING)))
        if val is MISSING:
            c.slots.pop(key, None)
        else:
            c.slots[key] = val

    @staticmethod
    def age(c):
        fam = c.meta.get("fam")
        return c.alloc if fam is None else fam.alloc

    def undo(self, mark, alloc_mark):
        keep = []
        while len(self.trail) > mark:
            c, key, old = self.trail.pop()
            if c.alloc <= alloc_mark:
                if old is MISSING:
                    c.slots.pop(key, None)
                else:
                    c.slots[key] = old

    # ---- symbols
    def fresh(self, name, sort):
        self.counter += 1
        n = f"{name}!{self.counter}"
        if self.gen:
            return z3.Function(n, *([I] * len(self.gen)), sort)(*self.gen)
        return z3.Const(n, sort)

    def path_name(self, name):
        """a name for the current path: different on each path"""
        return f"{name}@{self.where}{self.here()}"

    def here(self):
        return "".join("ft"[d] for d, _, _ in self.dec[:self.pos])

    # ---- logic
    def add(self, kind, f):
        if kind != "ufact":
            if isinstance(f, bool):
                if f:
                    return
                f = z3.BoolVal(False)
            self.assert_(f)
        self.pc.append((kind, f))

    def fact(self, f):
        self.add("fact", f)

    def assume(self, f):
        self.add("cond", f)
        if not self.feasible():
            raise PathDead()

    def assert_(self, f):
        self.solver.add(f)
        self.coarse.add(*absn.abstract(f))

    def coarse_unsat(self, *extra):
        self.coarse.push()
        try:
            for f in extra:
                self.coarse.add(*absn.abstract(f))
            return self.coarse.check() == z3.unsat
        finally:
            self.coarse.pop()

    def check(self, *extra):
        self.nqueries += 1
        if self.coarse_unsat(*extra):
            return z3.unsat
        return self.full_check(self.timeout_ms, *extra)

    def full_check(self, ms, *extra):
        """The incremental solver was seen to answer unsat on satisfiable formulas over sequences
        (z3 5.3.2), so its unsat counts only if a solver without history agrees"""
        r = self.solver.check(*extra)
        if r == z3.unsat:
            s = z3.Solver()
            s.set("timeout", max(ms, 2000))
            s.add(self.solver.assertions())
            s.add(*extra)
            self.confirmations += 1
            r = s.check()
            if r == z3.sat:
                self.model = s.model()
                self.contradictions += 1
        elif r == z3.sat:
            self.model = self.solver.model()
        return r

    def quick(self, *extra):
        """a query whose answer may be left open (short time limit)"""
        self.nqueries += 1
        if self.coarse_unsat(*extra):
            return z3.unsat
        self.solver.set("timeout", self.quick_ms)
        t0 = time.time()
        try:
            return self.full_check(self.quick_ms, *extra)
        finally:
            self.solver.set("timeout", self.timeout_ms)
            dt = time.time() - t0
            if dt > 0.3:
                self.slow += 1
                if os.environ.get("PYVC_SLOW"):
                    import sys
                    print("SLOW", round(dt, 2), [str(e)[:300] for e in extra], file=sys.stderr)

    def feasible(self, *extra):
        """False: proved infeasible"""
        return self.quick(*extra) != z3.unsat

    def branch(self, cond):
        """Decide a condition; explores both outcomes"""
        if isinstance(cond, bool):
            return cond
        if cond is None:
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.dec):
            d, _, kind = self.dec[self.pos]
            self.pos += 1
            self.add(kind, cond if d else z3.Not(cond))
            return d
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if not t and not f:
            raise PathDead()
        d = t
        both = t and f
        # decided by the path condition: not a condition of the path
        kind = "cond" if both else "derived"
        self.dec.append((d, both, kind))
        self.pos += 1
        self.add(kind, cond if d else z3.Not(cond))
        return d

    def choose(self, n, name="choice"):
        """nondeterministic choice of 0..n-1"""
        for k in range(n - 1):
            if self.branch(self.fresh(name, B)):
                return k
        return n - 1

    def explore(self, fn, setup=None):
        """Run fn on all its paths. The state is the same before and after."""
        outcomes = []
        stack = [[]]
        saved = (self.dec, self.pos, self.reads, self.readwrites, self.where)
        self.where += self.here() + "."
        counter0 = self.counter
        npaths = 0
        while stack:
            prefix = stack.pop()
            npaths += 1
            if npaths > 4000:
                raise Unsupported("too many paths")
            self.dec = list(prefix)
            self.pos = 0
            self.reads = {}
            self.readwrites = set()
            self.counter = counter0
            mark = len(self.trail)
            pcmark = len(self.pc)
            alloc_mark = next(_alloc)
            self.solver.push()
            self.coarse.push()
            gen = list(self.gen)
            tables = {a: copy.copy(b) for a, b in self.tables.items() if a not in LASTING}
            kind = value = None
            try:
                try:
                    value = fn()
                    kind = "ok"
                except PathDead:
                    kind = "dead"
                except Sig as s:
                    kind = type(s).__name__
                    value = s
                self.gen = gen
                if kind != "dead":
                    writes = {}
                    for c, key, old in self.trail[mark:]:
                        if self.age(c) <= alloc_mark:
                            k = (id(c), key)
                            if k not in self.readwrites:
                                continue
                            if k not in writes:
                                writes[k] = [c, key, old, None]
                    for w in writes.values():
                        w[3] = self.peek(w[0], w[1])
                    outcomes.append(Outcome(
                        kind, value, self.pc[pcmark:],
                        writes, dict(self.reads), alloc_mark))
            finally:
                self.gen = gen
                dec = self.dec
                self.undo(mark, alloc_mark)
                tables.update({a: self.tables[a] for a in LASTING if a in self.tables})
                self.tables = tables
                self.solver.pop()
                self.coarse.pop()
                del self.pc[pcmark:]
                reads_in = self.reads
                rw_in = self.readwrites
                self.dec, self.pos, self.reads, self.readwrites, where = saved
                # reads inside count as reads of the surrounding run
                if self.reads is not None:
                    for k, v in reads_in.items():
                        if k not in self.readwrites and self.age(v[0]) <= alloc_mark:
                            self.reads[k] = v
            for k in range(len(prefix), len(dec)):
                d, both, kind = dec[k]
                if both:
                    stack.append(dec[:k] + [(not d, False, kind)])
        self.counter = counter0 + 1000 if not outcomes else max(self.counter, counter0 + 1000)
        return outcomes

    def formula(self, fn, gens=(), src=None, pattern=None):
        """the result of an evaluation that changes nothing, as one formula. gens: the bound variables
        in it (pattern: the terms of src at which the facts about them are needed)"""
        self.gen.extend(gens)
        try:
            outs = self.explore(fn)
        finally:
            if gens:
                del self.gen[-len(gens):]
        parts = []
        for o in outs:
            if o.kind != "ok":
                raise Unsupported(f"an exception while a collection is searched: {o.value}")
            if any(w[2] is not w[3] for w in o.writes.values()):
                raise Unsupported("a comparison with side effects")
            g = o.conds()
            g = z3.And(g) if g else z3.BoolVal(True)
            v = o.value if not isinstance(o.value, bool) else z3.BoolVal(o.value)
            parts.append(z3.And(g, v))
            for kind, f in o.items:
                if kind == "fact" or kind == "use" and gens:
                    f = z3.Implies(g, f)
                    if not gens:
                        self.fact(f)
                    elif src is not None and not z3.is_true(z3.simplify(f)):
                        self.ufact(src.t, pattern or src.params + tuple(gens), tuple(gens), f)
                elif kind == "ufact":
                    srct, p2, free, f = f
                    self.ufact(srct, p2, tuple(free) + tuple(gens), z3.Implies(g, f))
        return z3.simplify(z3.Or(parts)) if parts else z3.BoolVal(False)

    # ---- proof obligations
    def prove(self, label, f, detail=""):
        t0 = time.time()
        backend = "z3"
        if isinstance(f, bool):
            status = "ok" if f else "failed"
            backend = "evaluation"
            model = ""
            if not f:
                # the path itself may be infeasible
                r = self.check()
                if r == z3.unsat:
                    status = "ok"
                model = self.model_text() if r == z3.sat else str(r)
        else:
            model = ""
            g = z3.simplify(f)
            if z3.is_true(g):
                status = "ok"
                backend = "z3-simplify"
            else:
                r = self.check(z3.Not(f))
                if r == z3.unsat:
                    status = "ok"
                elif r == z3.sat:
                    status = "failed"
                    model = self.model_text()
                else:
                    st = self.second_opinion(z3.Not(f))
                    backend = "cvc5" if st == "unsat" else "z3+cvc5"
                    status = "ok" if st == "unsat" else "unknown"
        self.report.obligation(label, status, backend, time.time() - t0, detail or str(f)[:300], model)
        return status == "ok"

    def entails(self, f):
        if isinstance(f, bool):
            return f or not self.feasible()
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        return self.quick(z3.Not(f)) == z3.unsat

    def model_text(self):
        try:
            m = self.model
            if m is None:
                return ""
            return "; ".join(f"{d.name()}={m[d]}" for d in m.decls()[:40])[:2000]
        except z3.Z3Exception:
            return ""

    def second_opinion(self, extra):
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(extra)
        s.set("timeout", self.timeout_ms)
        r = s.check()
        if r == z3.unsat:
            return "unsat"
        text = "(set-logic ALL)\n" + s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
                fh.write(text)
            out = subprocess.run(
                ["cvc5", "--strings-exp", f"--tlimit={self.timeout_ms}", fh.name],
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                timeout=self.timeout_ms / 1000 + 5).stdout.decode()
        except Exception:
            out = ""
        finally:
            os.unlink(fh.name)
        return out.split("\n")[0].strip()

    # ---- symbolic sources
    def in_range(self, src, t, limit=None):
        c = z3.And(t >= 0, t < src.n)
        if limit is not None:
            c = z3.And(c, t < limit)
        return c

    def register(self, src, t):
        st = src.t
        key = (tuple(p.sexpr() for p in src.params), t.sexpr())
        terms = st.slots["terms"]
        if any(k == key for k, _ in terms):
            return
        inst = src.params + (t,)
        self._put(st, "terms", terms + ((key, inst),))
        for uf in st.slots["facts"]:
            self._instantiate(uf, inst)
        for to, f in st.slots["links"]:
            self.register(to, f(t))

    def _instantiate(self, uf, inst):
        patterns, free, formula = uf
        sub = []
        eqs = []
        bound = {}
        for p, t in zip(patterns, inst):
            if any(p.eq(v) for v in free) and p.sexpr() not in bound:
                bound[p.sexpr()] = t
                sub.append((p, t))
            else:
                eqs.append((p, t))
        for v in free:
            if v.sexpr() not in bound:
                return          # cannot be instantiated by matching
        f = z3.substitute(formula, *sub) if sub else formula
        for p, t in eqs:
            f = z3.Implies((z3.substitute(p, *sub) if sub else p) == t, f)
        f = z3.simplify(f)
        if not z3.is_true(f):
            self.assert_(f)
            t = inst[-1]
            plain = z3.is_const(t) and t.decl().name().startswith("~")
            # instances at terms other than the variables themselves are needed after the loop, too
            self.pc.append(("inst" if plain else "use", f))

    def ufact(self, srct, patterns, free, formula):
        """for all free: formula, instantiated at the registered terms of srct"""
        if z3.is_true(z3.simplify(formula)):
            return
        # the same fact with other names of the variables
        canonical = [(v, z3.Const(f"~canonical!{n}", v.sort())) for n, v in enumerate(free)]
        key = tuple(z3.substitute(t, *canonical) if canonical else t for t in (formula,) + tuple(patterns))
        h = tuple(t.get_id() for t in key)
        known = srct.slots["known"]
        if h in known:
            return
        self._put(srct, "known", {**known, h: key})
        self._put(srct, "facts", srct.slots["facts"] + ((patterns, free, formula),))
        self.pc.append(("ufact", (srct, patterns, free, formula)))
        for _, inst in srct.slots["terms"]:
            self._instantiate((patterns, free, formula), inst)

    def forall(self, src, fn):
        """assume: for all i in range: fn(i)"""
        v = z3.Const(f"~i!{next(_alloc)}", I)
        self.ufact(src.t, src.params + (v,), (v,),
                   z3.Implies(self.in_range(src, v), fn(v)))

    def skolem(self, src, name="w"):
        w = self.fresh(name, I)
        self.fact(self.in_range(src, w))
        self.register(src, w)
        return w

    # ---- families
    def bound(self, t):
        """does the term contain a variable that is bound here (not one of a surrounding loop)?"""
        if t.num_args() == 0:
            return z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                and t.decl().name().startswith("~") and not any(g.eq(t) for g in self.gen)
        return any(self.bound(c) for c in t.children())

    def fam_obj(self, fam, idx):
        idx = tuple(z3.simplify(t) for t in idx)
        if any(self.bound(t) for t in idx):
            return self._new_instance(fam, fam.cls, idx)        # under a binder: not an object of its own
        key = tuple(t.sexpr() for t in idx)
        objs = fam.state.slots["objs"]
        for k, o in objs:
            if k == key:
                return o
        for k, o in objs:
            e = z3.And([a == b for a, b in zip(o.meta["idx"], idx)])
            if self.entails(e):
                return o
        for k, o in objs:
            e = z3.And([a == b for a, b in zip(o.meta["idx"], idx)])
            if self.feasible(e):
                if self.branch(e):
                    return o
        if callable(fam.cls) and not hasattr(fam.cls, "name"):
            cls = fam.cls(idx)
        else:
            cls = fam.cls
        o = self._new_instance(fam, cls, idx)
        self._put(fam.state, "objs", fam.state.slots["objs"] + ((key, o),))
        if fam.on_create:
            fam.on_create(o)
        return o

    def _new_instance(self, fam, cls, idx):
        t = getattr(fam, "template", None)
        if t is None:
            o = Obj(cls)
        elif t.kind == "list":
            o = HList()
        elif t.kind == "dict":
            o = HDict(cls=t.cls)
        elif t.kind == "set":
            o = HSet()
        else:
            o = Obj(cls)
        o.slots.clear()
        o.meta.update({k: v for k, v in (t.meta if t else {}).items() if k not in ("fam", "idx")})
        o.meta["fam"] = fam
        o.meta["idx"] = idx
        return o

    def fam_slot(self, o, key):
        fam = o.meta["fam"]
        ups = fam.state.slots["updates"]
        if key not in o.slots and ("ver", key) not in o.slots:
            v = fam.init(key, o.meta["idx"], o)
            self._put(o, ("ver", key), 0)
            if v is not MISSING:
                self._put(o, key, v)
        ver = o.slots[("ver", key)]
        v = o.slots.get(key, MISSING)
        if ver < len(ups):
            for u in ups[ver:]:
                v = self._apply_update(u, o, key, v)
            self._put(o, key, v)
            self._put(o, ("ver", key), len(ups))
        return v

    def _apply_update(self, u, o, key, v):
        loops, pat, alts = u
        idx = o.meta["idx"]
        if not any(key in writes for _, writes in alts):
            return v
        sub = []
        eqs = []
        for p, t in zip(pat, idx):
            if any(p.eq(var) for _, var, _ in loops) and not any(p.eq(q) for q, _ in sub):
                sub.append((p, t))
            else:
                eqs.append((p, t))
        if len(sub) != len(loops):
            raise Unsupported("family update with an index that is not a loop variable")

        def s(x):
            for p, t in sub:
                x = self.subst(x, p, t)
            return x
        conds = [s(p) == t for p, t in eqs]
        regs = []
        for src, var, limit in loops:
            t = [t for p, t in sub if p.eq(var)][0]
            src2 = s(src)
            conds.append(self.in_range(src2, t, None if limit is None else s(limit)))
            regs.append((src2, t))
        if not self.branch(z3.And(conds)):
            return v
        for src2, t in regs:
            self.register(src2, t)
        for g, writes in alts:
            if key in writes:
                if self.branch(s(g)):
                    return s(writes[key])
        return v

    # ---- substitution of generic indices
    def subst(self, v, var, t):
        if isinstance(v, z3.ExprRef):
            return z3.substitute(v, (var, t))
        if v is None or isinstance(v, (str, int, float, bytes, bool, Poison)) or v is MISSING:
            return v
        if isinstance(v, tuple):
            return tuple(self.subst(x, var, t) for x in v)
        if isinstance(v, PathV):
            return PathV(self.subst(v.term, var, t), v.cls)
        if isinstance(v, StrSeq):
            return StrSeq(self.subst(v.term, var, t))
        if isinstance(v, Src):
            return Src(v.t, [self.subst(p, var, t) for p in v.params])
        if isinstance(v, Lit):
            return Lit(self.subst(v.v, var, t))
        if isinstance(v, DSet):
            return DSet(self.subst(v.k, var, t), self.subst(v.v, var, t))
        if isinstance(v, DPair):
            return DPair(self.subst(v.k1, var, t), self.subst(v.k2, var, t), self.subst(v.v, var, t))
        if isinstance(v, DDel):
            return DDel(self.subst(v.k, var, t))
        if isinstance(v, Comp):
            if v.var.eq(var):
                raise Unsupported("capture in substitution")
            return Comp(self.subst(v.src, var, t), v.var,
                        [(self.subst(g, var, t), self.subst(s, var, t)) for g, s in v.alts],
                        None if v.limit is None else self.subst(v.limit, var, t),
                        v.injective)
        if isinstance(v, Obj):
            if "fam" in v.meta:
                idx = v.meta["idx"]
                nidx = tuple(z3.substitute(x, (var, t)) for x in idx)
                if all(a.eq(b) for a, b in zip(idx, nidx)):
                    return v
                return self.fam_obj(v.meta["fam"], nidx)
            if not any(g.eq(var) for g in v.gen):
                return v
            fam = v.meta.get("tfam")
            if fam is None:
                fam = self.template_family(v)
                v.meta["tfam"] = fam
            idx = tuple(z3.substitute(g, (var, t)) for g in v.gen)
            return self.fam_obj(fam, idx)
        if hasattr(v, "subst"):
            return v.subst(self, var, t)
        return v

    def template_family(self, obj):
        def init(key, idx, o):
            val = obj.slots.get(key, MISSING)
            if val is MISSING:
                return val
            return self.subst_many(val, obj.gen, idx)
        fam = Fam(f"T{obj.alloc}", obj.cls, init, len(obj.gen))
        fam.template = obj
        fam.alloc = fam.state.alloc = obj.alloc
        return fam

    def subst_many(self, val, gens, idx):
        # one variable at a time (the variables are distinct constants)
        out = val
        for g, t in zip(gens, idx):
            if not g.eq(t):
                out = self.subst(out, g, t)
        return out
