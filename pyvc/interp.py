"""
pyvc interpreter: executes the abstract syntax of the code in /repo on symbolic
values. The sources are parsed on every run; nothing is extracted or rewritten.
"""
import ast
import os

import z3

from .core import (
    B, I, MISSING, S, SeqS, Val, BreakSig, Comp, ContinueSig, Ctx, DDel, DPair,
    DSet, Env, Fam, GenAbort, GenV, HDict, HList, HSet, Lit, Obj, PathDead,
    PathV, Poison, PyRaise, ReturnSig, SegView, Sig, Src, StrSeq, Unsupported,
    _alloc, is_term,
)

PKG = "dataladmetadatamodel"


class ClsV(Obj):
    kind = "class"

    def __init__(self, name, bases, attrs, module=None, qualname=None, builtin=None):
        super().__init__("type", attrs)
        self.name = name
        self.bases = list(bases)
        self.module = module
        self.qualname = qualname or name
        self.builtin = builtin
        self.mro = self._mro()

    def _mro(self):
        # C3 linearisation
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent class hierarchy")
            res.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def __repr__(self):
        return f"<class {self.name}>"


class FuncV:
    def __init__(self, node, env, name, qualname, module, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.name = name
        self.qualname = qualname
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Builtin:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class PropV:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class StaticV:
    def __init__(self, func):
        self.func = func


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class CtxMgrFunc:
    def __init__(self, func):
        self.func = func


class CtxMgrV:
    """a context manager made from a generator function: gen is a GenV"""

    def __init__(self, gen):
        self.gen = gen


class ExtCtxMgr:
    def __init__(self, enter, exit_):
        self.enter = enter
        self.exit = exit_


class SuperV:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class ModV(Obj):
    kind = "module"

    def __init__(self, name, attrs=None):
        super().__init__("module", attrs or {})
        self.name = name


class OpaqueV:
    """typing constructs and similar: any attribute, call or subscript is opaque"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class BytesV:
    """bytes: the UTF-8 encoding of the text term, or opaque bytes (text is None)"""

    def __init__(self, text):
        self.text = text

    def subst(self, ctx, var, t):
        return BytesV(ctx.subst(self.text, var, t))


class FmtStr:
    """A formatted text (messages): only some parts are known"""

    def __init__(self, parts=()):
        self.parts = []
        self.opaque = not parts         # nothing is known
        for p in parts:
            self.parts.extend(p.parts if isinstance(p, FmtStr) else [p])
            self.opaque = self.opaque or isinstance(p, FmtStr) and p.opaque


class TextBuilder:
    """the value of a text variable while a loop extends it"""

    def __init__(self, parts):
        self.parts = parts


class IterV(Obj):
    kind = "iter"


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    def __init__(self, ctx, repo, externals):
        self.ctx = ctx
        self.repo = repo
        self.modules = {}
        self.contracts = {}
        self.invariants = {}    # qualified name of a function -> invariant of its loop
        self.stack = []
        self.exc_stack = []
        self.used = set()       # qualnames of repo functions that were executed
        self.contract_used = set()
        self.externals = externals(self)
        self.builtins = {}
        from . import builtins_ as bi
        bi.install(self)

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if not (name == PKG or name.startswith(PKG + ".")):
            m = self.externals.module(name)
            self.modules[name] = m
            return m
        if name == PKG + "._version":
            m = ModV(name, {"get_versions": Builtin("get_versions", lambda i, a, k: self.mkdict([("version", "0")]))})
            self.modules[name] = m
            return m
        path, is_pkg = self.module_path(name)
        if not os.path.exists(path):
            raise Unsupported(f"no module {name}")
        if "." in name:
            self.module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = ModV(name)
        m.meta["pkg"] = name if is_pkg else name.rsplit(".", 1)[0]
        self.modules[name] = m
        env = Env(None, m)
        env.slots = m.slots
        m.meta["env"] = env
        m.slots["__name__"] = name
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.exec_block(tree.body, env)
        if "." in name:
            parent, child = name.rsplit(".", 1)
            self.modules[parent].slots[child] = m
        return m

    def resolve_import(self, module, level, env):
        if level == 0:
            return module
        pkg = env.module.meta["pkg"].split(".")
        base = pkg[:len(pkg) - (level - 1)]
        return ".".join(base + ([module] if module else []))

    def lookup_class(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        return self.module(mod).slots[name]

    # ------------------------------------------------------------ exceptions
    def exc(self, cls, *args):
        if isinstance(cls, str):
            cls = self.builtins[cls]
        e = Obj(cls, {"args": tuple(args)})
        return e

    def throw(self, cls, *args):
        raise PyRaise(self.exc(cls, *args))

    # ------------------------------------------------------------ environments
    def lookup(self, env, name):
        e = env
        while e is not None:
            if e.meta.get("cls_body") and e is not env:
                e = e.parent
                continue
            v = self.ctx.get(e, name)
            if v is not MISSING:
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                if isinstance(v, TextBuilder):
                    raise Unsupported(f"variable {name} is read while a loop extends it")
                return v
            e = e.parent
        if name in self.builtins:
            return self.builtins[name]
        # a name that is assigned later or not at all
        self.throw("NameError", name)

    def assign_name(self, env, name, value):
        if name in env.globals:
            self.ctx.put(env.module.meta["env"] if env.parent else env, name, value)
            # module env shares its slots with the module object
            return
        nl = env.meta.get("nonlocal", ())
        if name in nl:
            e = env.parent
            while e is not None and name not in e.slots:
                e = e.parent
            self.ctx.put(e, name, value)
            return
        self.ctx.put(env, name, value)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            m = self.module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                self.assign_name(env, a.name.split(".")[0], self.module(a.name.split(".")[0]))

    def x_ImportFrom(self, s, env):
        name = self.resolve_import(s.module, s.level, env)
        m = self.module(name)
        for a in s.names:
            v = self.ctx.get(m, a.name)
            if v is MISSING and isinstance(m, ModV) and (name == PKG or name.startswith(PKG + ".")):
                v = self.module(name + "." + a.name)
            if v is MISSING:
                v = self.externals.attribute(m, a.name)
            self.assign_name(env, a.asname or a.name, v)

    def x_FunctionDef(self, s, env):
        self.assign_name(env, s.name, self.make_function(s, env))

    def make_function(self, s, env, cls=None):
        a = s.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else (self.eval(d, env),) for d in a.kw_defaults]
        prefix = env.meta.get("qual", env.module.name)
        f = FuncV(s, env, s.name, f"{prefix}.{s.name}", env.module, defaults, kwd,
                  cls=env.meta.get("cls_obj"))
        v = f
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            v = self.decorate(dec, v)
        return v

    def decorate(self, dec, v):
        if isinstance(dec, OpaqueV):
            return v
        return self.call(dec, [v], {})

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [b for b in bases if isinstance(b, ClsV)]
        if not bases:
            bases = [self.builtins["object"]]
        prefix = env.meta.get("qual", env.module.name)
        qual = f"{prefix}.{s.name}"
        cenv = Env(env, env.module)
        cenv.meta["cls_body"] = True
        cenv.meta["qual"] = qual
        holder = []
        cenv.meta["cls_holder"] = holder
        self.exec_block(s.body, cenv)
        cls = ClsV(s.name, bases, {k: v for k, v in cenv.slots.items()}, env.module, qual)
        cls.slots.setdefault("__name__", s.name)
        holder.append(cls)
        for v in list(cls.slots.values()):
            for f in self.functions_in(v):
                f.cls = cls
        # annotations order is needed for dataclasses
        cls.meta["fields"] = [
            (t.target.id, cls.slots.get(t.target.id, MISSING))
            for t in s.body
            if isinstance(t, ast.AnnAssign) and isinstance(t.target, ast.Name)]
        if any(b.meta.get("enum") for b in cls.mro):
            self.make_enum(cls)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, env), v)
        self.assign_name(env, s.name, v)

    def functions_in(self, v):
        if isinstance(v, FuncV):
            return [v]
        if isinstance(v, (StaticV, ClassMethodV, CtxMgrFunc)):
            return self.functions_in(v.func)
        if isinstance(v, PropV):
            return self.functions_in(v.fget) + self.functions_in(v.fset)
        return []

    def make_enum(self, cls):
        members = []
        for k, v in list(cls.slots.items()):
            if k.startswith("_") or isinstance(v, (FuncV, StaticV, ClassMethodV, PropV)):
                continue
            o = Obj(cls, {"name": k, "value": v})
            cls.slots[k] = o
            members.append(o)
        cls.meta["members"] = members

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            if isinstance(self.ctx.peek(env, t.id), TextBuilder):
                from . import builtins_ as bi
                v = self.eval(s.value, env)
                if not (bi.is_str(v) or isinstance(v, FmtStr)):
                    raise Unsupported("a text is extended by something else")
                bi.list_append(self, self.ctx.get(env, t.id).parts, v)
                return
            old = self.lookup(env, t.id)
            new = self.augop(s.op, old, self.eval(s.value, env))
            self.assign_name(env, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, old, self.eval(s.value, env)))
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, old, new):
        from . import builtins_ as bi
        if isinstance(op, ast.Add) and isinstance(old, HList):
            bi.list_extend(self, old, new)
            return old
        if isinstance(op, ast.BitOr) and isinstance(old, (HSet, HDict)):
            bi.update(self, old, new)
            return old
        return self.binop(op, old, new)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            from . import builtins_ as bi
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                if isinstance(v, StrSeq):
                    if not self.ctx.branch(z3.Length(v.term) >= len(t.elts) - 1):
                        self.throw("ValueError", "not enough values to unpack")
                    for n, e in enumerate(t.elts[:k]):
                        self.assign(e, bi.nth(self, v, n), env)
                    self.assign(t.elts[k].value, bi.getitem(self, v, slice(k or None, -after if after else None)), env)
                    for n, e in enumerate(t.elts[k + 1:]):
                        self.assign(e, bi.nth(self, v, n - after), env)
                    return
                vals = bi.to_pylist(self, v)
                if len(vals) < len(t.elts) - 1:
                    self.throw("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, HList([Lit(x) for x in vals[k:len(vals) - after]]), env)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
                return
            vals = bi.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def x_Delete(self, s, env):
        from . import builtins_ as bi
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.put(env, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                bi.delitem(self, self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                self.ctx.put(self.eval(t.value, env), t.attr, MISSING)
            else:
                raise Unsupported("del")

    def x_Global(self, s, env):
        env.globals.update(s.names)

    def x_Nonlocal(self, s, env):
        env.meta["nonlocal"] = set(env.meta.get("nonlocal", ())) | set(s.names)

    def x_If(self, s, env):
        if self.test(s.test, env):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.test(s.test, env):
            if s.msg is not None:
                self.throw("AssertionError", self.eval(s.msg, env))
            self.throw("AssertionError")

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.throw("RuntimeError", "no active exception")
            raise PyRaise(self.exc_stack[-1])
        e = self.eval(s.exc, env)
        if isinstance(e, ClsV):
            e = self.call(e, [], {})
        if s.cause is not None:
            self.eval(s.cause, env)
        raise PyRaise(e)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as r:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(r.exc, self.eval(h.type, env)):
                        if h.name:
                            self.assign_name(env, h.name, r.exc)
                        self.exc_stack.append(r.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (Sig,) as sig:
            # `finally` may itself raise or return: that replaces the signal
            self.exec_block(s.finalbody, env)
            raise sig
        else:
            self.exec_block(s.finalbody, env)

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if not isinstance(t, ClsV):
            raise Unsupported(f"except {t}")
        if e.meta.get("any_exc"):
            # an unspecified exception: decide nondeterministically where
            # the classes permit it
            if t.name == "BaseException":
                return True
            return self.ctx.branch(self.ctx.fresh(f"is_{t.name}", B))
        return t in e.cls.mro

    def x_With(self, s, env):
        self.exec_with(s.items, s.body, env)

    def exec_with(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)

        def run(value):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, value, env)
            self.exec_with(items[1:], body, env)
        self.with_cm(cm, run)

    def with_cm(self, cm, run):
        if isinstance(cm, CtxMgrV):
            pending = []
            entered = []

            def on_yield(v):
                if entered:
                    raise Unsupported("context manager yields twice")
                entered.append(1)
                try:
                    run(v)
                except PyRaise:
                    raise
                except Sig as sig:
                    pending.append(sig)
                return None
            n0 = len(self.ctx.trail)
            self.run_gen(cm.gen, on_yield)
            if not entered:
                self.throw("RuntimeError", "generator didn't yield")
            if pending:
                raise pending[0]
            return
        if isinstance(cm, ExtCtxMgr):
            v = cm.enter()
            try:
                run(v)
            except PyRaise as r:
                if cm.exit(r.exc):
                    return
                raise
            except Sig:
                cm.exit(None)
                raise
            cm.exit(None)
            return
        if isinstance(cm, Obj):
            v = self.call_method(cm, "__enter__", [])
            try:
                run(v)
            except PyRaise as r:
                if self.truth(self.call_method(cm, "__exit__", [r.exc.cls, r.exc, None])):
                    return
                raise
            except Sig:
                self.call_method(cm, "__exit__", [None, None, None])
                raise
            self.call_method(cm, "__exit__", [None, None, None])
            return
        raise Unsupported(f"with {cm}")

    def text_accumulators(self, s, env):
        """variables that hold a text and only occur in  name += text  in the loop"""
        from . import builtins_ as bi
        aug, other = set(), set()
        for x in s.body:
            for n in ast.walk(x):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, ast.Add):
                    aug.add(n.target.id)
                    n.target.accumulated = True
        for x in s.body + [s.target]:
            for n in ast.walk(x):
                if isinstance(n, ast.Name) and not getattr(n, "accumulated", False):
                    other.add(n.id)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    other.update(n.names)
        return sorted(n for n in aug - other if n in env.slots and n not in env.globals
                      and n not in env.meta.get("nonlocal", ()) and bi.is_str(self.ctx.peek(env, n)))

    def x_For(self, s, env):
        names = self.text_accumulators(s, env)
        if not names:
            return self.for_loop(s, env)
        from . import builtins_ as bi
        old = {n: self.ctx.get(env, n) for n in names}
        new = {n: TextBuilder(HList()) for n in names}

        def done():
            for n in names:
                text = bi.s_join(self, "", [new[n].parts], {})
                self.assign_name(env, n, text if isinstance(old[n], str) and old[n] == "" else
                                 bi.concat(self, [old[n], text]))
        for n in names:
            self.assign_name(env, n, new[n])
        try:
            self.for_loop(s, env)
        except Sig:
            done()
            raise
        done()

    def for_loop(self, s, env):
        from . import loops
        it = self.eval(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except ContinueSig:
                pass
        try:
            inv = self.invariants.get(env.meta.get("qual"))
            if inv is not None and isinstance(it, (StrSeq, PathV)) and loops.unknown_length(self, it.term):
                self.invariant_loop(s, env, it.term, body, inv)
            else:
                loops.foreach(self, it, body)
        except BreakSig:
            return
        self.exec_block(s.orelse, env)

    def invariant_loop(self, s, env, seq, body, inv):
        """A loop over a sequence of any length whose invariant is given by the specification:
        inv.state(k, names) are the values of the variables that the loop assigns before iteration k,
        inv.check(k, values) states it. The iterations must not change objects."""
        from . import builtins_ as bi
        ctx = self.ctx
        target = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        names = sorted({n.id for x in s.body for n in ast.walk(x)
                        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} - target)
        names = [n for n in names if n in env.slots]

        def values():
            return {n: self.lookup(env, n) for n in names}
        inv.check(z3.IntVal(0), values())
        last = z3.Length(seq)
        if ctx.choose(2, "iteration") == 0:
            k = ctx.fresh("iteration", z3.IntSort())
            ctx.assume(z3.And(k >= 0, k < last))
            for n, v in inv.state(k, names).items():
                self.assign_name(env, n, v)
            mark, old = len(ctx.trail), next(_alloc)
            body(bi.nth(self, seq, k))
            if any(c is not env and key != "objs" and not isinstance(key, tuple) and ctx.age(c) <= old for c, key, _ in ctx.trail[mark:]):
                raise Unsupported(f"a loop with an invariant changes an object {[(c, key) for c, key, _ in ctx.trail[mark:]]}")
            inv.check(k + 1, values())
            raise PathDead()
        for n, v in inv.state(last, names).items():
            self.assign_name(env, n, v)

    def x_While(self, s, env):
        n = 0
        while True:
            if not self.test(s.test, env):
                break
            n += 1
            if n > 60:
                raise Unsupported("while loop: no bound found")
            try:
                self.exec_block(s.body, env)
            except ContinueSig:
                pass
            except BreakSig:
                return
        self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    # ------------------------------------------------------------ expressions
    def test(self, e, env):
        """evaluate a condition, decide it"""
        return self.truth(self.eval(e, env))

    def truth(self, v):
        """Python truth value, decided (may branch)"""
        from . import builtins_ as bi
        return self.ctx.branch(bi.truthy(self, v))

    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(env, e.id)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                from . import builtins_ as bi
                out.extend(bi.to_pylist(self, self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        from . import builtins_ as bi
        out = HList()
        segs = ()
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.ctx.put(out, "segs", segs)
                bi.list_extend(self, out, self.eval(x.value, env))
                segs = self.ctx.get(out, "segs")
            else:
                segs += (Lit(self.eval(x, env)),)
        self.ctx.put(out, "segs", segs)
        return out

    def e_Set(self, e, env):
        from . import builtins_ as bi
        out = HSet()
        for x in e.elts:
            bi.set_add(self, out, self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        from . import builtins_ as bi
        out = HDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                bi.update(self, out, self.eval(v, env))
            else:
                kv = self.eval(k, env)
                bi.dict_set(self, out, kv, self.eval(v, env))
        return out

    def e_Lambda(self, e, env):
        a = e.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else (self.eval(d, env),) for d in a.kw_defaults]
        prefix = env.meta.get("qual", env.module.name)
        return FuncV(e, env, "<lambda>", f"{prefix}.<lambda>", env.module, defaults, kwd)

    def e_IfExp(self, e, env):
        if self.test(e.test, env):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def e_BoolOp(self, e, env):
        from . import builtins_ as bi
        isand = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.eval(x, env)
            if n == len(e.values) - 1:
                return v
            if not isand and isinstance(v, PathV) and self.empty_path(e.values[n + 1], env):
                # p or MetadataPath(""): equal to p in both cases (the truth value of a path is its length)
                if n + 2 == len(e.values):
                    return v
            t = self.truth(v)
            if t != isand:
                if is_term(v) and v.sort() == B:
                    return t
                return v
        return v

    def empty_path(self, x, env):
        """x is MetadataPath() or MetadataPath("")"""
        if not isinstance(x, ast.Call) or x.keywords or not isinstance(x.func, ast.Name) \
                or not all(isinstance(a, ast.Constant) and a.value == "" for a in x.args):
            return False
        f = self.eval(x.func, env)
        return isinstance(f, ClsV) and f is self.lookup_class("dataladmetadatamodel.metadatapath.MetadataPath")

    def e_UnaryOp(self, e, env):
        from . import builtins_ as bi
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = bi.truthy(self, v)
            if isinstance(t, bool):
                return not t
            return z3.Not(t)
        if isinstance(e.op, ast.USub):
            return -v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def binop(self, op, a, b):
        from . import builtins_ as bi
        return bi.binop(self, op, a, b)

    def e_Compare(self, e, env):
        from . import builtins_ as bi
        left = self.eval(e.left, env)
        acc = True
        for n, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            r = bi.compare(self, op, left, right)
            if len(e.ops) == 1:
                return r
            if n < len(e.ops) - 1 and not self.ctx.branch(bi.truthy(self, r)):
                return False
            acc = r
            left = right
        return acc

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(
                None if s.lower is None else self.eval(s.lower, env),
                None if s.upper is None else self.eval(s.upper, env),
                None if s.step is None else self.eval(s.step, env))
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, OpaqueV):
            return OpaqueV(o.name)
        return self.getitem(o, self.eval_index(e.slice, env))

    def e_JoinedStr(self, e, env):
        from . import builtins_ as bi
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, env)
            if v.format_spec is not None or v.conversion == ord("r"):
                parts.append(None)
                continue
            parts.append(bi.format_value(self, x))
        return bi.concat(self, parts)

    def e_FormattedValue(self, e, env):
        from . import builtins_ as bi
        return bi.format_value(self, self.eval(e.value, env))

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Call(self, e, env):
        from . import builtins_ as bi
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env
            while f is not None and "self_arg" not in f.meta:
                f = f.parent
            return SuperV(f.func.cls, f.meta["self_arg"])
        fn = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                args.extend(bi.to_pylist(self, v))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(bi.to_kwargs(self, self.eval(k.value, env)))
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(fn, args, kwargs)

    def comp_env(self, env):
        ne = Env(env, env.module, env.func)
        if "qual" in env.meta:
            ne.meta["qual"] = env.meta["qual"]
        return ne

    def run_comp(self, gens, env, leaf):
        from . import loops
        if not gens:
            leaf(env)
            return
        g = gens[0]
        it = self.eval(g.iter, env)

        def body(v):
            self.assign(g.target, v, env)
            for c in g.ifs:
                if not self.test(c, env):
                    return
            self.run_comp(gens[1:], env, leaf)
        loops.foreach(self, it, body)

    def e_ListComp(self, e, env):
        from . import builtins_ as bi
        out = HList()
        self.run_comp(e.generators, self.comp_env(env),
                      lambda ce: bi.list_append(self, out, self.eval(e.elt, ce)))
        return out

    def e_SetComp(self, e, env):
        from . import builtins_ as bi
        out = HSet()
        self.run_comp(e.generators, self.comp_env(env),
                      lambda ce: bi.set_add(self, out, self.eval(e.elt, ce)))
        return out

    def e_DictComp(self, e, env):
        from . import builtins_ as bi
        out = HDict()

        def leaf(ce):
            k = self.eval(e.key, ce)
            bi.dict_set(self, out, k, self.eval(e.value, ce))
        self.run_comp(e.generators, self.comp_env(env), leaf)
        return out

    def e_GeneratorExp(self, e, env):
        ce = self.comp_env(env)
        # the first iterable is evaluated immediately
        first = self.eval(e.generators[0].iter, env)
        from . import loops

        def run(on_yield):
            g = e.generators[0]

            def body(v):
                self.assign(g.target, v, ce)
                for c in g.ifs:
                    if not self.test(c, ce):
                        return
                self.run_comp(e.generators[1:], ce, lambda x: on_yield(self.eval(e.elt, x)))
            loops.foreach(self, first, body)
        return GenV(run, "genexp")

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        return self.yield_to(env)(v)

    def yield_to(self, env):
        f = env
        while f is not None and "on_yield" not in f.meta:
            f = f.parent
        if f is None:
            raise Unsupported("yield outside of a generator")
        return f.meta["on_yield"]

    def e_YieldFrom(self, e, env):
        from . import loops
        it = self.eval(e.value, env)
        loops.foreach(self, it, self.yield_to(env))
        return None

    # ------------------------------------------------------------ attributes
    def class_attr(self, cls, name):
        for c in cls.mro:
            v = self.ctx.get(c, name)
            if v is not MISSING:
                return v
        return MISSING

    def getattr(self, o, name, default=MISSING):
        from . import builtins_ as bi
        v = self.find_attr(o, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            if isinstance(o, Obj) and isinstance(o.cls, ClsV):
                ga = self.class_attr(o.cls, "__getattr__")
                if ga is not MISSING:
                    return self.call(ga, [o, name], {})
            self.throw("AttributeError", name)
        return v

    def find_attr(self, o, name):
        from . import builtins_ as bi
        if isinstance(o, OpaqueV):
            return OpaqueV(f"{o.name}.{name}")
        if isinstance(o, ClsV):
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.name
            v = self.class_attr(o, name)
            if v is MISSING:
                return v
            if isinstance(v, StaticV):
                return v.func
            if isinstance(v, ClassMethodV):
                return BoundV(v.func, o)
            return v
        if isinstance(o, ModV):
            v = self.ctx.get(o, name)
            if v is MISSING:
                if o.name.startswith(PKG):
                    return v
                v = self.externals.attribute(o, name)
            return v
        if isinstance(o, SuperV):
            cls = o.self_ if isinstance(o.self_, ClsV) else o.self_.cls
            mro = cls.mro
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                v = self.ctx.get(c, name)
                if v is not MISSING:
                    return self.bind(v, o.self_)
            return bi.super_builtin(self, o, name)
        if isinstance(o, Obj) and isinstance(o.cls, ClsV):
            v = self.class_attr(o.cls, name)
            if isinstance(v, PropV):
                return self.call(v.fget, [o], {})
            iv = self.ctx.get(o, name)
            if iv is not MISSING:
                if isinstance(iv, Poison):
                    raise Unsupported(f"attribute {name}: {iv.why}")
                return iv
            if v is not MISSING:
                return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            return bi.obj_attr(self, o, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
            return o.attrs.get(name, MISSING)
        return bi.attr(self, o, name)

    def bind(self, v, o):
        if isinstance(v, FuncV) or (isinstance(v, Builtin) and getattr(v, "method", False)) \
                or isinstance(v, CtxMgrFunc):
            return BoundV(v, o)
        if isinstance(v, StaticV):
            return v.func
        if isinstance(v, ClassMethodV):
            return BoundV(v.func, o.cls if not isinstance(o, ClsV) else o)
        if isinstance(v, PropV):
            return self.call(v.fget, [o], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, ClsV):
                p = self.class_attr(o.cls, name)
                if isinstance(p, PropV):
                    if p.fset is None:
                        self.throw("AttributeError", f"no setter for {name}")
                    self.call(p.fset, [o, v], {})
                    return
                hook = o.cls.meta.get("setattr_hook")
                if hook is not None and hook(self, o, name, v):
                    return
            self.ctx.put(o, name, v)
            return
        if isinstance(o, PathV):
            return          # attributes of path objects: only used internally
        raise Unsupported(f"attribute assignment on {o!r}")

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        from . import builtins_ as bi
        return bi.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import builtins_ as bi
        bi.setitem(self, o, k, v)

    # ------------------------------------------------------------ calls
    def call_method(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), args, kwargs or {})

    def call(self, fn, args, kwargs):
        if isinstance(fn, BoundV):
            return self.call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), dict(kwargs))
        if isinstance(fn, FuncV):
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, CtxMgrFunc):
            g = self.call(fn.func, args, kwargs)
            if isinstance(g, (CtxMgrV, ExtCtxMgr)):
                return g
            return CtxMgrV(g)
        if isinstance(fn, ClsV):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, OpaqueV):
            return OpaqueV(fn.name)
        if isinstance(fn, StaticV):
            return self.call(fn.func, args, kwargs)
        if isinstance(fn, Obj) and isinstance(fn.cls, ClsV):
            return self.call_method(fn, "__call__", args, kwargs)
        raise Unsupported(f"call of {fn!r}")

    def instantiate(self, cls, args, kwargs):
        from . import builtins_ as bi
        ctr = self.contracts.get(cls.qualname)
        if ctr is not None:
            self.contract_used.add(cls.qualname)
            return ctr(self, list(args), dict(kwargs))
        r = bi.instantiate_builtin(self, cls, args, kwargs)
        if r is not MISSING:
            return r
        new = self.class_attr(cls, "__new__")
        if new is not MISSING:
            f = new.func if isinstance(new, StaticV) else new
            o = self.call(f, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and isinstance(o.cls, ClsV) and cls in o.cls.mro):
                return o
        else:
            o = Obj(cls)
        init = self.class_attr(cls, "__init__")
        if init is not MISSING:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            if new is MISSING:
                self.throw("TypeError", "unexpected arguments")
        return o

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        slots = {}
        args = list(args)
        kwargs = dict(kwargs)
        for n, v in zip(names, args):
            slots[n] = v
        extra = args[len(names):]
        if extra and a.vararg is None:
            self.throw("TypeError", f"{f.name}() takes {len(names)} arguments")
        if a.vararg is not None:
            slots[a.vararg.arg] = tuple(extra)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                if n in slots:
                    self.throw("TypeError", f"{f.name}() got multiple values for {n}")
                slots[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            slots.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in slots and d is not None:
                slots[x.arg] = d[0]
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in slots:
                self.throw("TypeError", f"{f.name}() missing argument {n}")
        if a.kwarg is not None:
            d = self.mkdict(list(kwargs.items()))
            slots[a.kwarg.arg] = d
        elif kwargs:
            self.throw("TypeError", f"{f.name}() got an unexpected keyword argument")
        return slots

    def mkdict(self, items):
        return HDict([DSet(k, v) for k, v in items])

    def call_function(self, f, args, kwargs):
        c = self.contracts.get(f.qualname)
        if c is not None:
            self.contract_used.add(f.qualname)
            return c(self, self.bind_args(f, args, kwargs))
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        slots = self.bind_args(f, args, kwargs)
        self.used.add(f.qualname)
        env = Env(f.env, f.module, f)
        env.meta["qual"] = f.qualname
        env.slots.update(slots)
        first = f.node.args.posonlyargs + f.node.args.args
        if f.cls is not None and first:
            env.meta["self_arg"] = slots[first[0].arg]
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if f.is_gen:
            def run(on_yield):
                env.meta["on_yield"] = on_yield
                self.run_body(f, env)
            return GenV(run, f.qualname)
        return self.run_body(f, env)

    def run_body(self, f, env):
        if len(self.stack) > 60 or self.stack.count(f.qualname) > 8:
            raise Unsupported(f"recursion in {f.qualname} without a contract")
        self.stack.append(f.qualname)
        depth = len(self.stack)
        nexc = len(self.exc_stack)
        try:
            self.exec_block(f.node.body, env)
        except ReturnSig as r:
            return r.value
        finally:
            del self.stack[depth - 1:]
            del self.exc_stack[nexc:]
        return None

    def run_gen(self, g, on_yield):
        """Run a lazy iterable; a consumer that leaves the loop closes it"""
        g.run(on_yield)
