"""
pyvc: iteration over concrete and symbolic collections.

A loop over a collection of unknown size is verified by executing its body once
for an arbitrary element (generic_loop). The effects of the loop are described
by comprehension segments (Comp), family updates and universally quantified
facts. If the body depends on effects of earlier iterations, the state before
an arbitrary iteration is assumed to be the entry state extended by the effects
of all earlier iterations, and the body is executed again to verify that it
preserves this invariant.
"""
import z3

from .core import (
    B, I, MISSING, S, Comp, Ctx, DDel, DPair, DSet, Env, Fam, GenAbort, GenV,
    HDict, HList, HSet, Lit, Obj, Outcome, PathDead, PathV, Poison, SegView,
    Sig, Src, SrcT, StrSeq, Unsupported, is_term, _alloc,
)


def bi():
    from . import builtins_
    return builtins_


# ------------------------------------------------------------------ iteration

def foreach(it, x, body, literal_only=False):
    ctx = it.ctx
    if isinstance(x, tuple):
        for v in x:
            body(v)
        return
    if isinstance(x, str):
        for v in x:
            body(v)
        return
    if isinstance(x, StrSeq):
        for v in seq_elements(it, x.term):
            body(v)
        return
    if isinstance(x, (HList, HSet)):
        segs = ctx.get(x, "segs")
        if isinstance(x, HSet):
            if len(segs) > 1 and any(isinstance(s, Comp) for s in segs):
                return foreach_mixed_set(it, segs, body, literal_only)
            segs = dedupe(it, segs)
        foreach_segs(it, segs, body, literal_only)
        return
    if isinstance(x, HDict):
        dict_foreach(it, x, lambda k, v: body(k), literal_only)
        return
    if isinstance(x, SegView):
        f = {"keys": lambda k, v: body(k), "values": lambda k, v: body(v),
             "items": lambda k, v: body((k, v))}[x.what]
        dict_foreach(it, x.d, f, literal_only)
        return
    if isinstance(x, GenV):
        def consumer(v):
            try:
                body(v)
            except GenAbort:
                raise
            except Sig as s:
                raise GenAbort(s)
        used = ctx.get(x.state, "used")
        if used == "done":
            return
        if used != "no":
            raise Unsupported("a generator is used after a part of it was used")
        ctx.put(x.state, "used", "partly")
        try:
            x.run(consumer)
        except GenAbort as g:
            raise g.inner
        ctx.put(x.state, "used", "done")
        return
    if isinstance(x, Obj):
        from .interp import ClsV
        if isinstance(x, ClsV) and x.meta.get("enum"):
            for m in x.meta["members"]:
                body(m)
            return
        if isinstance(x.cls, ClsV):
            f = it.class_attr(x.cls, "__iter__")
            if f is not MISSING:
                foreach(it, it.call(it.bind(f, x), [], {}), body, literal_only)
                return
            if bi().native(it, x, "$dict"):
                foreach(it, ctx.get(x, "$dict"), body, literal_only)
                return
    it.throw("TypeError", "object is not iterable")


def seq_elements(it, t):
    """elements of a sequence of known length"""
    t = z3.simplify(t)
    kids = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
    out = []
    for k in kids:
        kind = k.decl().kind()
        if kind == z3.Z3_OP_SEQ_UNIT:
            out.append(bi().untrm(k.arg(0)))
        elif kind == z3.Z3_OP_SEQ_EMPTY:
            pass
        else:
            for n in range(0, 5):
                if it.ctx.entails(z3.Length(k) == n):
                    out.extend(bi().nth(it, k, j) for j in range(n))
                    break
            else:
                raise Unsupported("iteration over a sequence of unknown length")
    return out


def unknown_length(it, t):
    try:
        seq_elements(it, t)
    except Unsupported:
        return True
    return False


def foreach_enum(it, x, start, on_yield):
    """enumerate(): positions are known for literal prefixes only"""
    if isinstance(x, (HList,)):
        segs = it.ctx.get(x, "segs")
        if any(isinstance(c, Comp) for c in segs) and all(isinstance(c, Lit) or isinstance(c, Comp) and simple(c)
                                                          for c in segs):
            pos = start
            for c in segs:
                if isinstance(c, Lit):
                    on_yield((pos, c.v))
                    pos = pos + 1
                else:
                    generic_loop(it, c.src, c.limit, lambda i: on_yield(
                        (i if isinstance(pos, int) and pos == 0 else i + pos,
                         it.ctx.subst(c.alts[0][1][0].v, c.var, i))))
                    n = c.src.n if c.limit is None else c.limit
                    pos = n if isinstance(pos, int) and pos == 0 else z3.simplify(n + pos)
            return
    pos = [start]

    def body(v):
        p = pos[0]
        pos[0] = p + 1
        on_yield((p, v))
    foreach(it, x, body, literal_only=True)


def foreach_zip(it, xs, on_yield):
    """zip() of lists that have the same shape: literals and comprehensions over the same sources"""
    if not all(isinstance(x, HList) for x in xs) or not xs:
        return False
    rows = [it.ctx.get(x, "segs") for x in xs]
    if len(set(map(len, rows))) != 1 or not any(isinstance(s, Comp) for s in rows[0]):
        return False

    def same_source(a, b):
        return a.src.t is b.src.t and len(a.src.params) == len(b.src.params) and (
            a.limit is b.limit or is_term(a.limit) and is_term(b.limit) and a.limit.eq(b.limit)) and all(
            x.eq(y) for x, y in zip(a.src.params, b.src.params))
    for col in zip(*rows):
        if all(isinstance(s, Lit) for s in col):
            continue
        if not all(isinstance(s, Comp) and simple(s) and isinstance(s.alts[0][1][0], Lit)
                   and same_source(s, col[0]) for s in col):
            return False
    for col in zip(*rows):
        if isinstance(col[0], Lit):
            on_yield(tuple(s.v for s in col))
        else:
            generic_loop(it, col[0].src, col[0].limit, lambda i, col=col: on_yield(tuple(
                it.ctx.subst(c.alts[0][1][0].v, c.var, i) for c in col)))
    return True


def foreach_segs(it, segs, body, literal_only=False):
    for s in segs:
        if isinstance(s, Lit):
            body(s.v)
        elif isinstance(s, Comp):
            if literal_only:
                raise Unsupported("a collection of unknown size")
            comp_foreach(it, s, lambda seg: body(seg.v))
        else:
            raise Unsupported(f"segment {s}")


def comp_foreach(it, c, one_seg):
    """one_seg is called with every Lit/DSet of a generic element"""
    def one(i):
        for seg in comp_at(it, c, i):
            if isinstance(seg, Comp):
                comp_foreach(it, seg, one_seg)
            else:
                one_seg(seg)
    generic_loop(it, c.src, c.limit, one)


def comp_at(it, c, t):
    """the segments of element t (decides the alternative)"""
    ctx = it.ctx
    for g, segs in c.alts:
        gt = ctx.subst(g, c.var, t) if is_term(g) else g
        if ctx.branch(gt):
            return tuple(ctx.subst(s, c.var, t) for s in segs)
    return ()


def simple(c):
    """exactly one literal for every element"""
    return len(c.alts) == 1 and z3.is_true(z3.simplify(bi().boolterm(c.alts[0][0]))) \
        and len(c.alts[0][1]) == 1 and isinstance(c.alts[0][1][0], (Lit, DSet))


def foreach_mixed_set(it, segs, body, literal_only):
    """a set of several parts: elements that are in an earlier part are left out"""
    for n, s in enumerate(segs):
        earlier = HSet(segs[:n])

        def once(v, earlier=earlier, n=n):
            if n and it.ctx.branch(bi().boolterm(set_has(it, earlier, v))):
                return
            body(v)
        foreach_segs(it, (s,), once, literal_only)


def dedupe(it, segs):
    if len(segs) <= 1 or any(isinstance(s, Comp) for s in segs):
        if sum(isinstance(s, Comp) for s in segs) and len(segs) > 1:
            raise Unsupported("iteration over a mixed symbolic set")
        for s in segs:
            if isinstance(s, Comp) and not s.injective and not comp_injective(it, s):
                raise Unsupported("iteration over a set with possibly repeated elements")
        return segs
    out = []
    for s in segs:
        for o in out:
            if it.ctx.branch(bi().boolterm(bi().eq(it, o.v, s.v))):
                break
        else:
            out.append(s)
    return tuple(out)


# ------------------------------------------------------------------ dictionaries

def dict_items(it, d):
    """[(key, value)] of a dictionary of known size, None otherwise"""
    segs = it.ctx.get(d, "segs")
    if any(isinstance(s, (Comp, DPair)) for s in segs):
        return None
    return resolve(it, segs)


def resolve(it, segs):
    out = []
    for s in segs:
        for n, (k, v) in enumerate(out):
            q = bi().quick_eq(it, k, s.k)
            if q is None:
                q = it.ctx.branch(bi().boolterm(bi().eq(it, k, s.k)))
            if q:
                if isinstance(s, DDel):
                    del out[n]
                else:
                    out[n] = (k, s.v)
                break
        else:
            if isinstance(s, DSet):
                out.append((s.k, s.v))
    return out


def dict_foreach(it, d, f, literal_only=False):
    ctx = it.ctx
    items = dict_items(it, d)
    if items is not None:
        for k, v in items:
            f(k, v)
        return
    if literal_only:
        raise Unsupported("a dictionary of unknown size")
    segs = ctx.get(d, "segs")
    for n, s in enumerate(segs):
        earlier, later = segs[:n], segs[n + 1:]

        def visit(k, v, own=False):
            for l in later:
                if isinstance(l, DDel):
                    if ctx.branch(bi().boolterm(bi().eq(it, l.k, k))):
                        return
            if earlier and ctx.branch(bi().boolterm(segs_have(it, earlier, k))):
                return
            found, nv = segs_get(it, later, k)
            f(k, nv if found else v)
        if isinstance(s, DSet):
            visit(s.k, s.v)
        elif isinstance(s, DDel):
            pass
        elif isinstance(s, Comp):
            if not s.injective and not comp_injective(it, s):
                s = grouped(it, s)
            comp_foreach(it, s, lambda seg: visit(seg.k, seg.v))
        else:
            raise Unsupported("iteration over a two-level dictionary")


def comp_injective(it, c):
    """different elements have different keys"""
    if not all(len(segs) <= 1 and all(isinstance(s, (DSet, Lit)) for s in segs) for _, segs in c.alts):
        return False
    keys = [s.k if isinstance(s, DSet) else s.v for _, segs in c.alts for s in segs]
    if any(inverse(it, k, c.var, None) is None for k in keys):
        return False
    if not keys:
        return True
    ts = [injection(t, c.var) for k in keys for t in key_terms(k)
          if t is not None and inverse_term(it, t, c.var) is not None]
    ok = len(set(ts)) == 1
    if ok:
        c.injective = True
    return ok


def grouped(it, s):
    """the keys of a dictionary given by a comprehension with possibly repeated keys, one by one: for d < m: key(d) ->
    the value of the last element with this key"""
    ctx = it.ctx
    alts = [(g, segs) for g, segs in s.alts if segs]
    if s.limit is not None or s.src.params or any(
            len(segs) != 1 or not isinstance(segs[0], DSet) or not is_term(segs[0].k) or not segs[0].k.eq(alts[0][1][0].k)
            for _, segs in alts):
        raise Unsupported("iteration over a dictionary with possibly repeated keys")
    guard = z3.Or(*[bi().boolterm(g) for g, _ in alts])
    key = alts[0][1][0].k
    if any(occurs(e, g) for e in (guard, key) for g in ctx.gen):
        raise Unsupported("iteration over a dictionary with possibly repeated keys")
    x = z3.Const("~canonical!0", I)
    ident = (s.src.t, z3.substitute(guard, (s.var, x)).sexpr(), z3.substitute(key, (s.var, x)).sexpr())
    known = ctx.tables.setdefault("grouped", {})
    if ident not in known:
        t = SrcT("keys")
        src = Src(t)
        ctx.fact(src.n >= 0)
        n = next(_alloc)
        gk = z3.Function(f"key@{n}", I, key.sort())
        gi = z3.Function(f"key@{n}^-1", key.sort(), I)
        rep = z3.Function(f"last@{n}", I, I)
        ctx.tables["inv"] = {**ctx.tables.get("inv", {}), gk.name(): gi}
        d = z3.Const(f"~d!{n}", I)
        i = z3.Const(f"~j!{n}", I)

        def at_(e, j):
            return z3.substitute(e, (s.var, j))
        ctx.ufact(t, (d,), (d,), z3.Implies(ctx.in_range(src, d), z3.And(
            ctx.in_range(s.src, rep(d)), at_(guard, rep(d)), at_(key, rep(d)) == gk(d))))
        ctx.ufact(t, (d,), (d,), gi(gk(d)) == d)
        j = gi(at_(key, i))
        ctx.ufact(s.src.t, (i,), (i,), z3.Implies(z3.And(ctx.in_range(s.src, i), at_(guard, i)), z3.And(
            ctx.in_range(src, j), gk(j) == at_(key, i), i <= rep(j))))
        ctx._put(t, "links", t.slots["links"] + ((s.src, rep),))
        for _, inst in t.slots["terms"]:
            ctx.register(s.src, rep(inst[-1]))
        ctx.tables["grouped"] = {**known, ident: (src, gk, rep)}
    src, gk, rep = ctx.tables["grouped"][ident]
    v = z3.Const(f"~i!{next(_alloc)}", I)
    return Comp(src, v, [(z3.substitute(bi().boolterm(g), (s.var, rep(v))),
                          (DSet(gk(v), ctx.subst(seg.v, s.var, rep(v))),)) for g, (seg,) in alts], None, True)


def segs_have(it, segs, k):
    """formula: the key is in the dictionary given by the segments"""
    b = bi()
    acc = False
    for s in segs:
        if isinstance(s, DSet):
            acc = b.disj([acc, b.eq(it, s.k, k)])
        elif isinstance(s, DDel):
            acc = b.conj([acc, b.neg(b.eq(it, s.k, k))])
        elif isinstance(s, Comp):
            f, _ = find_in_comp(it, s, k, False)
            acc = b.disj([acc, f])
        else:
            raise Unsupported("two-level dictionary")
    return acc


def segs_get(it, segs, k):
    """(found, value), decided"""
    b = bi()
    for s in reversed(segs):
        if isinstance(s, DSet):
            if it.ctx.branch(b.boolterm(b.eq(it, s.k, k))):
                return True, s.v
        elif isinstance(s, DDel):
            if it.ctx.branch(b.boolterm(b.eq(it, s.k, k))):
                return False, None
        elif isinstance(s, Comp):
            f, getter = find_in_comp(it, s, k)
            if it.ctx.branch(b.boolterm(f)):
                return True, getter().v
        else:
            raise Unsupported("two-level dictionary")
    return False, None


def dict_get(it, d, k):
    return segs_get(it, it.ctx.get(d, "segs"), k)


def dict_has(it, d, k):
    return segs_have(it, it.ctx.get(d, "segs"), k)


def dict_del(it, d, k):
    segs = it.ctx.get(d, "segs")
    if all(isinstance(s, DSet) for s in segs):
        items = resolve(it, segs)
        out = []
        for n, (kk, v) in enumerate(items):
            if not it.ctx.branch(bi().boolterm(bi().eq(it, kk, k))):
                out.append(DSet(kk, v))
        it.ctx.put(d, "segs", tuple(out))
        return
    it.ctx.put(d, "segs", segs + (DDel(k),))


# ---- searching a comprehension for a key

def key_terms(k):
    """scalar components of a key"""
    b = bi()
    if isinstance(k, tuple):
        out = []
        for x in k:
            out.extend(key_terms(x))
        return out
    if is_term(k):
        return [k]
    if isinstance(k, (PathV, b.UuidV)):
        return [k.term] if is_term(k.term) else [None]
    if isinstance(k, Obj) and "fam" in k.meta and identity_eq(k):
        return [x for x in k.meta["idx"]]
    return [None]


def identity_eq(o):
    """objects of this class are equal only to themselves"""
    return o.cls is not None and o.kind not in ("list", "dict", "set") and hasattr(o.cls, "mro") \
        and not any("__eq__" in c.slots for c in o.cls.mro if not getattr(c, "builtin", None))


def inverse_term(it, t, var):
    """inverse function of a term in var, if the term is f(params.., var), or prefix + f(params.., var)"""
    if not z3.is_app(t) or t.num_args() == 0:
        if t.eq(var):
            return lambda x: x
        return None
    args = t.children()
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and len(args) == 2 and not occurs(args[0], var):
        tail = inverse_term(it, args[1], var)
        if tail is None or args[1].eq(var):
            return None
        n = z3.Length(args[0])
        return lambda x: tail(z3.SubString(x, n, z3.Length(x) - n))
    inv = it.ctx.tables.setdefault("inv", {}).get(t.decl().name())
    if inv is None:
        return None
    if not args[-1].eq(var):
        return None
    if any(occurs(a, var) for a in args[:-1]):
        return None

    def invert(x):
        # the inverse of f(params.., e) is e
        if z3.is_app(x) and x.decl().eq(t.decl()) and all(a.eq(b) for a, b in zip(x.children()[:-1], args[:-1])):
            return x.children()[-1]
        return inv(*args[:-1], x)
    return invert


def injection(t, var):
    """what the term in var is an injective function of var by: equal for equal functions"""
    if t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return "concat", t.arg(0).sexpr(), t.arg(1).decl().name()
    return t.decl().name()


def occurs(t, var):
    if t.eq(var):
        return True
    return any(occurs(c, var) for c in t.children())


def inverse(it, key, var, want):
    """the index at which key equals want, from any invertible component"""
    ks = key_terms(key)
    ws = key_terms(want) if want is not None else [None] * len(ks)
    if want is not None and len(ks) != len(ws):
        return None
    b = bi()
    wl = flat(want) if want is not None else None
    for n, t in enumerate(ks):
        if t is None:
            continue
        f = inverse_term(it, t, var)
        if f is not None:
            if want is None:
                return f
            w = ws[n]
            if w is None:
                x = wl[n]
                if isinstance(x, (str, int)) and not isinstance(x, bool):
                    w = b.term(x)
                    if w.sort() != t.sort():
                        return None
                else:
                    return None
            if w.sort() != t.sort():
                return None
            return f(w)
    return None


def common_prefix(key, want):
    """implied by key == want, if key is prefix + rest: spares the solver the conclusion"""
    if isinstance(key, PathV) and isinstance(want, PathV) and key.term.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.PrefixOf(key.term.arg(0), want.term)
    return True


def flat(k):
    if isinstance(k, tuple):
        out = []
        for x in k:
            out.extend(flat(x))
        return out
    return [k]


def plain(k):
    """compared without running code of the repository"""
    return all(not isinstance(x, Obj) or identity_eq(x) or x.kind == "class" or member_of_enum(x) for x in flat(k))


def member_of_enum(o):
    return hasattr(o.cls, "mro") and any(c.meta.get("enum") for c in o.cls.mro)


def at(it, src, fn, i):
    """fn(i) as one formula; i: a bound variable or an index"""
    return it.ctx.formula(lambda: fn(i), (i,) if it.ctx.bound(i) else (), src)


def find_in_comp(it, c, k, value=True):
    """(formula: an element with key k exists, getter of its segment)"""
    b = bi()
    ctx = it.ctx
    cands = []          # (formula, getter)
    for g, segs in c.alts:
        for n, s in enumerate(segs):
            if isinstance(s, Comp):
                cands.append(find_nested(it, c, g, s, k, value))
                continue
            key = s.k if isinstance(s, DSet) else s.v
            t = inverse(it, key, c.var, k)
            if t is not None:
                t = z3.simplify(t)
                f = b.conj([ctx.in_range(c.src, t, c.limit),
                            ctx.subst(b.boolterm(g), c.var, t),
                            b.eq(it, ctx.subst(key, c.var, t), k), common_prefix(key, k)])

                def getter(s=s, t=t):
                    ctx.register(c.src, t)
                    return ctx.subst(s, c.var, t)
                ctx.register(c.src, t)
                cands.append((f, getter))
            else:
                w = ctx.fresh("w", I)
                e = ctx.fresh("has", B)

                def matches(i, key=key, g=g):
                    return b.conj([ctx.in_range(c.src, i, c.limit),
                                   ctx.subst(b.boolterm(g), c.var, i),
                                   b.eq(it, ctx.subst(key, c.var, i), k)])
                m = at(it, c.src, matches, w)
                ctx.fact(z3.Implies(e, b.boolterm(m)))
                v = z3.Const(f"~j!{next(_alloc)}", I)
                ctx.ufact(c.src.t, c.src.params + (v,), (v,),
                          z3.Implies(b.boolterm(at(it, c.src, matches, v)), z3.And(e, v <= w)))
                ctx.register(c.src, w)

                def getter(s=s, w=w):
                    return ctx.subst(s, c.var, w)
                cands.append((e, getter))
    if not cands:
        return False, None
    if len(cands) == 1:
        return cands[0]

    def getter():
        for f, g in cands[:-1]:
            if ctx.branch(b.boolterm(f)):
                return g()
        return cands[-1][1]()
    if value and len(c.alts) < len(cands):
        raise Unsupported("several keys per element")
    return b.disj([f for f, _ in cands]), getter


def find_nested(it, c, g, inner, k, value):
    b = bi()
    ctx = it.ctx
    if len(inner.alts) != 1 or len(inner.alts[0][1]) != 1 or isinstance(inner.alts[0][1][0], Comp):
        raise Unsupported("search in a nested comprehension")
    g2, (s,) = inner.alts[0]
    key = s.k if isinstance(s, DSet) else s.v
    t = inverse(it, key, c.var, k)
    if t is None:
        t = ctx.fresh("w", I)
        u = ctx.fresh("w", I)
        e = ctx.fresh("has", B)

        def matches(i, j):
            s1 = ctx.subst(ctx.subst(key, c.var, i), inner.var, j)
            src2 = ctx.subst(inner.src, c.var, i)
            return b.conj([
                ctx.in_range(c.src, i, c.limit), ctx.subst(b.boolterm(g), c.var, i),
                ctx.in_range(src2, j, None if inner.limit is None else ctx.subst(inner.limit, c.var, i)),
                ctx.subst(ctx.subst(b.boolterm(g2), c.var, i), inner.var, j),
                b.eq(it, s1, k)])
        if not plain(key) or not plain(k):
            raise Unsupported("search for an object in a nested comprehension")
        ctx.fact(z3.Implies(e, b.boolterm(matches(t, u))))
        v1 = z3.Const(f"~j!{next(_alloc)}", I)
        v2 = z3.Const(f"~j!{next(_alloc)}", I)
        pat = tuple(z3.substitute(p, (c.var, v1)) for p in inner.src.params) + (v2,)
        ctx.ufact(inner.src.t, pat, (v1, v2), z3.Implies(b.boolterm(matches(v1, v2)), e))
        ctx.register(c.src, t)
        ctx.register(ctx.subst(inner.src, c.var, t), u)
        return e, lambda: ctx.subst(ctx.subst(s, c.var, t), inner.var, u)
    t = z3.simplify(t)
    ctx.register(c.src, t)
    inner2 = ctx.subst(inner, c.var, t)
    f, getter = find_in_comp(it, inner2, k, value)
    return b.conj([ctx.in_range(c.src, t, c.limit), ctx.subst(b.boolterm(g), c.var, t), f]), getter


# ------------------------------------------------------------------ lists, sets

def list_contains(it, l, x):
    b = bi()
    acc = False
    for s in it.ctx.get(l, "segs"):
        if isinstance(s, Lit):
            f = b.eq(it, s.v, x) if s.v is not x else True
            acc = b.disj([acc, f])
        else:
            f, _ = find_in_comp(it, s, x, False)
            acc = b.disj([acc, f])
        if acc is True:
            return True
    return acc


def iter_contains(it, x, v):
    class Found(Sig):
        pass

    l = listed(it, x)
    if l is not None:
        return list_contains(it, l, v)

    def body(y):
        if it.ctx.branch(bi().boolterm(bi().eq(it, y, v))):
            raise Found()
    try:
        foreach(it, x, body)
    except Found:
        return True
    return False


def listed(it, x):
    """the elements of an iterable as list, if listing them has no effect and does not fail; None otherwise"""
    if not isinstance(x, (GenV, SegView)):
        return None
    b = bi()
    ctx = it.ctx

    def run():
        l = HList()
        foreach(it, x, lambda y: b.list_append(it, l, y))
        return l
    if isinstance(x, GenV) and ctx.get(x.state, "used") != "no":
        return None
    nevents = len(ctx.peek(ctx.events, "segs"))
    try:
        for o in ctx.explore(lambda: (run(), len(ctx.peek(ctx.events, "segs")))):
            if o.kind != "ok" or o.value[1] != nevents:
                return None
            if any(new is not old and not (isinstance(x, GenV) and c is x.state)
                   for c, key, old, new in o.writes.values()):
                return None
    except Unsupported:
        return None
    l = run()
    if isinstance(x, GenV):
        ctx.put(x.state, "used", "partly")      # the search stops at the element
    return l


def count(it, l, x):
    """the number of elements of a list that are equal to x"""
    b = bi()
    ctx = it.ctx
    n = 0
    for s in ctx.get(l, "segs"):
        if isinstance(s, Lit):
            n = n + z3.If(b.boolterm(b.eq(it, s.v, x)), 1, 0)
            continue
        for g, segs in s.alts:
            for e in segs:
                one = Comp(s.src, s.var, [(g, (e,))], s.limit)
                f = b.boolterm(find_in_comp(it, one, x, False)[0])
                if not isinstance(e, Comp) and inverse(it, e.v, s.var, x) is not None:
                    n = n + z3.If(f, 1, 0)      # at this one index only
                else:
                    m = ctx.fresh("count", I)
                    ctx.fact(z3.And(m >= 0, (m > 0) == f))
                    n = n + m
    return z3.simplify(n) if is_term(n) else n


def list_index(it, l, x):
    b = bi()
    segs = it.ctx.get(l, "segs")
    pos = 0
    for s in segs:
        if isinstance(s, Lit):
            if it.ctx.branch(b.boolterm(b.eq(it, s.v, x))):
                return pos
            pos = pos + 1
        else:
            if not simple(s):
                raise Unsupported("index in a filtered list")
            # the first matching position
            w = it.ctx.fresh("idx", I)
            e = it.ctx.fresh("has", B)

            def matches(i):
                return b.conj([it.ctx.in_range(s.src, i, s.limit),
                               b.eq(it, it.ctx.subst(s.alts[0][1][0].v, s.var, i), x)])
            it.ctx.register(s.src, w)
            if it.ctx.branch(e):
                it.ctx.fact(b.boolterm(at(it, s.src, matches, w)))
                v = z3.Const(f"~j!{next(_alloc)}", I)
                it.ctx.ufact(s.src.t, s.src.params + (v,), (v,),
                             z3.Implies(b.boolterm(at(it, s.src, matches, v)), v >= w))
                return w if isinstance(pos, int) and pos == 0 else pos + w
            v = z3.Const(f"~j!{next(_alloc)}", I)
            it.ctx.ufact(s.src.t, s.src.params + (v,), (v,),
                         z3.Not(b.boolterm(at(it, s.src, matches, v))))
            pos = pos + comp_len(it, s)
    it.throw("ValueError", "not in list")


def list_getitem(it, l, k):
    b = bi()
    ctx = it.ctx
    segs = ctx.get(l, "segs")
    lits = all(isinstance(s, Lit) for s in segs)
    if isinstance(k, slice):
        if lits and all(isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step)):
            return HList(segs[k])
        if k.start is None and k.stop is None and k.step is None:
            return HList(segs)
        raise Unsupported("slice of a symbolic list")
    if isinstance(k, int):
        if lits:
            try:
                return segs[k].v
            except IndexError:
                it.throw("IndexError", "list index out of range")
        if k >= 0 and len(segs) > k and all(isinstance(s, Lit) for s in segs[:k + 1]):
            return segs[k].v
        if k < 0 and len(segs) >= -k and all(isinstance(s, Lit) for s in segs[k:]):
            return segs[k].v
        k = z3.IntVal(k) if k >= 0 else length(it, l) + k
    # symbolic position
    pos = 0
    for s in segs:
        if isinstance(s, Lit):
            if ctx.branch(k == pos):
                return s.v
            pos = pos + 1
        else:
            if not simple(s):
                raise Unsupported(f"subscript of a filtered list {s}")
            n = comp_len(it, s)
            t = z3.simplify(k - pos)
            if ctx.branch(z3.And(t >= 0, t < n)):
                ctx.register(s.src, t)
                return ctx.subst(s.alts[0][1][0].v, s.var, t)
            pos = pos + n
    it.throw("IndexError", "list index out of range")


def comp_len(it, s):
    """number of elements of a comprehension"""
    ctx = it.ctx
    if simple(s):
        n = s.src.n
        ctx.fact(n >= 0)
        return n if s.limit is None else z3.If(s.limit < n, s.limit, n)
    r = ctx.fresh("len", I)
    ctx.fact(r >= 0)
    return r


def length(it, c):
    b = bi()
    segs = it.ctx.get(c, "segs")
    if isinstance(c, HDict):
        items = dict_items(it, c)
        if items is not None:
            return len(items)
        if len(segs) == 1 and (segs[0].injective or comp_injective(it, segs[0])):
            return comp_len(it, segs[0])
        if isinstance(segs[0], Comp) and (segs[0].injective or comp_injective(it, segs[0])) \
                and all(isinstance(s, DSet) for s in segs[1:]):
            total = comp_len(it, segs[0])
            for n, s in enumerate(segs[1:]):
                total = total + z3.If(b.boolterm(segs_have(it, segs[:n + 1], s.k)), 0, 1)
            return total
        n = it.ctx.fresh("len", I)
        it.ctx.fact(n >= 0)
        return n
    if isinstance(c, HSet):
        if all(isinstance(s, Lit) for s in segs):
            return len(dedupe(it, segs))
        n = it.ctx.fresh("len", I)
        it.ctx.fact(n >= 0)
        it.ctx.fact(b.boolterm(nonempty(it, c)) == (n > 0))
        return n
    total = 0
    for s in segs:
        total = total + (1 if isinstance(s, Lit) else comp_len(it, s))
    return total


def sum_(it, x, start):
    segs = None
    if isinstance(x, HList):
        segs = it.ctx.get(x, "segs")
    else:
        l = HList()
        bi().list_extend(it, l, x)
        segs = it.ctx.get(l, "segs")
    total = start
    for s in segs:
        if isinstance(s, Lit):
            total = total + s.v
        else:
            key = ("sum", repr_seg(s))
            total = total + sum_term(it, s)
    return total


def sum_term(it, s):
    """sum over a comprehension: an uninterpreted value determined by its terms"""
    if not simple(s) or s.limit is not None:
        raise Unsupported("sum over a filtered comprehension")
    e = s.alts[0][1][0].v
    if not is_term(e):
        if isinstance(e, int):
            return e * comp_len(it, s)
        raise Unsupported("sum")
    name = "sum[" + s.src.t.name + "|" + z3.substitute(e, (s.var, z3.Int("_"))).sexpr() + "]"
    return z3.Function(name, *([I] * (len(s.src.params) + 1)), I)(*s.src.params, s.src.n)


def repr_seg(s):
    return repr(s)


def nonempty(it, c):
    b = bi()
    ctx = it.ctx
    segs = ctx.get(c, "segs")
    if not segs:
        return False
    if isinstance(c, HDict):
        items = dict_items(it, c)
        if items is not None:
            return bool(items)
        if any(isinstance(s, DDel) for s in segs):
            raise Unsupported("emptiness after a deletion")
    if any(isinstance(s, (Lit, DSet, DPair)) for s in segs):
        return True
    return b.disj([comp_nonempty(it, s) for s in segs])


def comp_nonempty(it, s):
    b = bi()
    ctx = it.ctx
    if not s.alts:
        return False
    lim = [] if s.limit is None else [s.limit > 0]
    if simple(s):
        return b.conj([s.src.n > 0] + lim)
    e = ctx.fresh("nonempty", B)
    w = ctx.fresh("w", I)

    def some(i):
        fs = []
        for g, segs in s.alts:
            if any(isinstance(x, (Lit, DSet)) for x in segs):
                fs.append(b.boolterm(ctx.subst(b.boolterm(g), s.var, i)))
            elif segs:
                fs.append(b.conj([ctx.subst(b.boolterm(g), s.var, i)] + [
                    b.disj([comp_nonempty(it, ctx.subst(x, s.var, i)) for x in segs])]))
        return b.conj([ctx.in_range(s.src, i, s.limit), b.disj(fs)])
    ctx.fact(z3.Implies(e, b.boolterm(some(w))))
    v = z3.Const(f"~j!{next(_alloc)}", I)
    ctx.ufact(s.src.t, s.src.params + (v,), (v,), z3.Implies(b.boolterm(some(v)), e))
    ctx.register(s.src, w)
    if s.limit is None:
        ctx.register(s.src, z3.IntVal(0))
    return e


def set_has(it, s, x):
    b = bi()
    fs = []
    for seg in it.ctx.get(s, "segs"):
        if isinstance(seg, Lit):
            fs.append(b.eq(it, seg.v, x))
        else:
            fs.append(find_in_comp(it, seg, x, False)[0])
    return b.disj(fs)


def set_discard(it, s, x):
    b = bi()
    segs = it.ctx.get(s, "segs")
    if not all(isinstance(q, Lit) for q in segs):
        raise Unsupported("discard on a symbolic set")
    it.ctx.put(s, "segs", tuple(q for q in segs if not it.ctx.branch(b.boolterm(b.eq(it, q.v, x)))))


def set_op(it, op, a, c):
    b = bi()
    ctx = it.ctx
    sa, sc = ctx.get(a, "segs"), ctx.get(c, "segs")
    if op == "|":
        return HSet(sa + sc)
    out = HSet()
    if op == "&" and all(isinstance(s, Lit) for s in sc) and not all(isinstance(s, Lit) for s in sa):
        a, c, sa, sc = c, a, sc, sa

    def body(x):
        if ctx.branch(b.boolterm(set_has(it, c, x))) == (op == "&"):
            b.set_add(it, out, x)
    foreach(it, a, body)
    return out


def subset(it, a, c):
    class No(Sig):
        pass

    def body(x):
        if not it.ctx.branch(bi().boolterm(set_has(it, c, x))):
            raise No()
    try:
        foreach(it, a, body)
    except No:
        return False
    return True


def eq_sets(it, a, c):
    if a is c:
        return True
    return subset(it, a, c) and subset(it, c, a)


def same_segs(x, y):
    return len(x) == len(y) and all(a is b for a, b in zip(x, y))


def eq_segs(it, x, y):
    """equality of two lists given by their segments (may decide conditions)"""
    b = bi()
    ctx = it.ctx
    if same_segs(x, y):
        return True
    lx, ly = all(isinstance(s, Lit) for s in x), all(isinstance(s, Lit) for s in y)
    if lx and ly:
        if len(x) != len(y):
            return False
        return b.conj_lazy(it, [(p.v, q.v) for p, q in zip(x, y)])
    if len(x) == len(y) and all(isinstance(p, Lit) == isinstance(q, Lit) for p, q in zip(x, y)) \
            and (len(x) == 1 or all(isinstance(p, Lit) or p.src.n.eq(q.src.n) for p, q in zip(x, y))):
        return b.conj([b.eq(it, p.v, q.v) if isinstance(p, Lit) else eq_comps(it, p, q)
                       for p, q in zip(x, y)])
    if lx or ly:
        lits, other = (x, y) if lx else (y, x)
        if not lits:
            return b.neg(nonempty(it, HList(other)))
        if any(isinstance(p, Lit) for p in other) and len(lits) < sum(isinstance(p, Lit) for p in other):
            return False
        if len(other) == 1 and isinstance(other[0], Comp):
            c = other[0]
            if simple(c) or all(len(s) == 1 and isinstance(s[0], Lit) for _, s in c.alts):
                n = c.src.n
                fs = [n == len(lits)]
                if not ctx.branch(n == len(lits)):
                    return False
                out = []
                for k, l in enumerate(lits):
                    t = z3.IntVal(k)
                    ctx.register(c.src, t)
                    at = comp_at(it, c, t)
                    if len(at) != 1:
                        raise Unsupported("list equality")
                    out.append(b.eq(it, at[0].v, l.v))
                return b.conj(out)
    raise Unsupported("equality of lists of different shapes")


def alpha_equal(it, x, y):
    """segments that are the same up to the names of their variables"""
    b = bi()
    ctx = it.ctx
    if len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p is q:
            continue
        if type(p) is not type(q):
            return False
        if isinstance(p, Lit):
            if b.eq(it, p.v, q.v) is not True:
                return False
            continue
        if not isinstance(p, Comp) or p.limit is not None or q.limit is not None \
                or not same_src(p.src, q.src) or len(p.alts) != len(q.alts):
            return False
        for (g, s), (h, t) in zip(p.alts, q.alts):
            h, t = ctx.subst(b.boolterm(h), q.var, p.var), [ctx.subst(z, q.var, p.var) for z in t]
            if not z3.simplify(b.boolterm(g)).eq(z3.simplify(h)) or not alpha_equal(it, s, t):
                return False
    return True


def eq_comps(it, p, q):
    """elementwise equality of two comprehensions with one literal per element"""
    b = bi()
    ctx = it.ctx
    if any(isinstance(x, Comp) for _, s in p.alts for x in s) and alpha_equal(it, [p], [q]):
        return True

    def ok(c):
        return c.limit is None and all(len(s) == 1 and isinstance(s[0], Lit) for _, s in c.alts)
    if not (ok(p) and ok(q)):
        raise Unsupported("equality of filtered lists")

    def differ(i):
        fs = []
        for g1, (l1,) in p.alts:
            for g2, (l2,) in q.alts:
                e = b.eq(it, ctx.subst(l1.v, p.var, i), ctx.subst(l2.v, q.var, i))
                fs.append(b.conj([ctx.subst(b.boolterm(g1), p.var, i),
                                  ctx.subst(b.boolterm(g2), q.var, i), b.neg(e)]))
        return b.conj([ctx.in_range(p.src, i), b.disj(fs)])
    e = ctx.fresh("listeq", B)
    w = ctx.fresh("w", I)
    ctx.register(p.src, w)
    here, differ = differ, lambda i: at(it, p.src, here, i)
    if not same_src(p.src, q.src):
        ctx.register(q.src, w)
    v = z3.Const(f"~j!{next(_alloc)}", I)
    ctx.ufact(p.src.t, p.src.params + (v,), (v,), z3.Implies(e, z3.Not(b.boolterm(differ(v)))))
    if not same_src(p.src, q.src):
        ctx.ufact(q.src.t, q.src.params + (v,), (v,), z3.Implies(e, z3.Not(b.boolterm(differ(v)))))
    neq_len = p.src.n != q.src.n
    ctx.fact(z3.Implies(e, p.src.n == q.src.n))
    ctx.fact(z3.Implies(z3.Not(e), b.boolterm(b.disj([neq_len, differ(w)]))))
    return e


def same_src(a, b):
    return a.t is b.t and len(a.params) == len(b.params) and all(
        x.eq(y) for x, y in zip(a.params, b.params))


def eq_dicts(it, a, c):
    b = bi()
    if a is c:
        return True
    x, y = dict_items(it, a), dict_items(it, c)
    if x is not None and y is not None:
        if len(x) != len(y):
            return False
        fs = []
        for k, v in x:
            for k2, v2 in y:
                q = b.quick_eq(it, k, k2)
                if q is None:
                    q = it.ctx.branch(b.boolterm(b.eq(it, k, k2)))
                if q:
                    fs.append(b.eq(it, v, v2))
                    break
            else:
                return False
        return b.conj(fs)

    class No(Sig):
        pass

    def body(k, v, d):
        f, w = dict_get(it, d, k)
        if not f or not it.ctx.branch(b.boolterm(b.eq(it, v, w))):
            raise No()
    try:
        dict_foreach(it, a, lambda k, v: body(k, v, c))
        dict_foreach(it, c, lambda k, v: body(k, v, a))
    except No:
        return False
    return True


# ------------------------------------------------------------------ the loop rule

class EarlierIteration(Unsupported):
    pass


class Effects:
    def __init__(self):
        self.acc = {}       # (id(c), key) -> (c, key, how, [(guard, delta)])
        self.const = {}     # (id(c), key) -> (c, key, value, [guards] or None)
        self.fam = {}       # id(obj) -> (obj, [(guard, {key: value})])
        self.env = {}       # (id(c), key) -> (c, key)
        self.groups = []    # dictionaries of lists
        self.ups = {}       # id(state of a family) -> (state, [(guard, update of an inner loop)])


def prefix_of(old, new):
    return len(new) >= len(old) and all(a is b for a, b in zip(old, new))


def guard_of(o):
    b = bi()
    return b.boolterm(b.conj([c for c in o.conds()]))


def classify(it, ctx, i0, outcomes, alloc_mark):
    """effects of one iteration, per location"""
    eff = Effects()
    locs = {}
    for o in outcomes:
        for k, w in o.writes.items():
            locs.setdefault(k, (w[0], w[1]))
    for k, (c, key) in locs.items():
        old = ctx.peek(c, key)          # at the entry of the loop
        if isinstance(key, tuple) and key and key[0] == "ver":
            continue
        writers = [(o, o.writes[k][3]) for o in outcomes if k in o.writes]
        changed = [(o, new) for o, new in writers if new is not o.writes[k][2]]
        if not changed:
            continue
        earlier_iteration(c.meta.get("of", c), i0)
        if c.kind == "familystate" and key == "updates":
            eff.ups[id(c)] = (c, [(guard_of(o), u) for o, new in changed for u in new[len(o.writes[k][2]):]])
            continue
        if "fam" in c.meta and any(occurs(x, i0) for x in c.meta["idx"]):
            ent = eff.fam.setdefault(id(c), (c, {}))
            ent[1][key] = [(guard_of(o), new) for o, new in writers]
            continue
        if c.kind in ("list", "dict", "set") and key == "segs":
            if all(prefix_of(o.writes[k][2], new) for o, new in changed):
                eff.acc[k] = (c, key, "segs",
                              [(guard_of(o), new[len(o.writes[k][2]):]) for o, new in changed], old)
                continue
            if all(new == () for _, new in changed):
                eff.const[k] = (c, key, (), None if len(writers) == len(outcomes) else
                                [guard_of(o) for o, _ in changed])
                continue
            raise Unsupported("a loop rewrites a collection")
        if all(isinstance(o.writes[k][2], (HList, HDict, HSet)) and
               isinstance(new, type(o.writes[k][2])) and new.alloc > alloc_mark for o, new in changed):
            before = {id(o): ctx.peek(o.writes[k][2], "segs") for o, _ in changed}
            if all(prefix_of(before[id(o)], ctx.peek(new, "segs")) for o, new in changed) and any(
                    len(ctx.peek(new, "segs")) > len(before[id(o)]) for o, new in changed):
                eff.acc[k] = (c, key, "replace",
                              [(guard_of(o), ctx.peek(new, "segs")[len(before[id(o)]):]) for o, new in changed], old)
                continue
        vals = [new for _, new in changed]
        if all(const_same(it, i0, alloc_mark, vals[0], v) for v in vals):
            eff.const[k] = (c, key, vals[0], None if len(changed) == len(outcomes) else
                            [guard_of(o) for o, _ in changed])
            continue
        if c.kind == "env":
            eff.env[k] = (c, key)
            continue
        raise Unsupported(f"a loop changes {c!r}.{key} in a way that depends on the iteration")
    return eff


def earlier_iteration(c, i0):
    """objects that earlier iterations of the same loop created are not changed"""
    fam = c if isinstance(c, Fam) else c.meta.get("fam")
    t = getattr(fam, "template", None)
    if t is not None and any(g.eq(i0) for g in t.gen):
        raise EarlierIteration("a loop changes an object that an earlier iteration created")


def const_same(it, i0, mark, a, b_):
    """both values are equal and do not depend on the iteration"""
    b = bi()
    if isinstance(a, (str, int, bool, float, bytes, type(None))):
        return type(a) is type(b_) and a == b_
    if is_term(a):
        return is_term(b_) and a.eq(b_) and not occurs(a, i0)
    if isinstance(a, (HList, HDict, HSet)) and a.alloc > mark:
        return type(a) is type(b_) and not a.slots.get("segs") and not b_.slots.get("segs")
    if isinstance(a, Obj):
        if a.alloc <= mark and "fam" not in a.meta:
            return a is b_
        if a.alloc > mark and type(a) is type(b_) and a.cls is b_.cls and not a.slots and not b_.slots:
            return True
    if isinstance(a, tuple):
        return isinstance(b_, tuple) and len(a) == len(b_) and all(
            const_same(it, i0, mark, x, y) for x, y in zip(a, b_))
    return False


def same_value(a, b_, seen=None):
    """structural identity of two generic values (same names, same shape)"""
    seen = seen if seen is not None else set()
    if a is b_:
        return True
    if is_term(a):
        return is_term(b_) and a.eq(b_)
    if type(a) is not type(b_):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b_) and all(same_value(x, y, seen) for x, y in zip(a, b_))
    if isinstance(a, Lit):
        return same_value(a.v, b_.v, seen)
    if isinstance(a, DSet):
        return same_value(a.k, b_.k, seen) and same_value(a.v, b_.v, seen)
    if isinstance(a, DDel):
        return same_value(a.k, b_.k, seen)
    if isinstance(a, Comp):
        if not same_src(a.src, b_.src) or len(a.alts) != len(b_.alts):
            return False
        if (a.limit is None) != (b_.limit is None) or (a.limit is not None and not a.limit.eq(b_.limit)):
            return False
        for (g1, s1), (g2, s2) in zip(a.alts, b_.alts):
            if not z3.substitute(bi().boolterm(g2), (b_.var, a.var)).eq(bi().boolterm(g1)):
                return False
            s2 = tuple(Ctx.current.subst(s, b_.var, a.var) for s in s2)
            if not same_value(s1, s2, seen):
                return False
        return True
    if isinstance(a, Obj):
        fa, fb = a.meta.get("fam"), b_.meta.get("fam")
        if fa is not None and fa is fb:
            return same_value(a.meta["idx"], b_.meta["idx"], seen)
        key = (id(a), id(b_))
        if key in seen:
            return True
        seen.add(key)
        x, y = slots_of(a), slots_of(b_)
        if x is None or y is None or a.cls is not b_.cls or set(x) != set(y):
            return False
        return all(same_value(x[k], y[k], seen) for k in x)
    if hasattr(a, "__dict__"):
        return all(same_value(v, b_.__dict__.get(k), seen) for k, v in a.__dict__.items())
    return a == b_


def slots_of(o):
    """the content of an object, None if it is abstract"""
    fam = o.meta.get("fam")
    if fam is None:
        return o.slots
    t = getattr(fam, "template", None)
    if t is None or fam.state.slots["updates"]:
        return None
    keys = set(t.slots) | {k for k in o.slots if not isinstance(k, tuple)}
    out = {k: Ctx.current.peek(o, k) for k in keys}
    return {k: v for k, v in out.items() if v is not MISSING}


def same_alts(x, y):
    if len(x) != len(y):
        return False
    return all(z3.simplify(g1).eq(z3.simplify(g2)) and same_value(tuple(d1), tuple(d2))
               for (g1, d1), (g2, d2) in zip(x, y))


def generic_loop(it, src, limit, one):
    ctx = it.ctx
    b = bi()
    n = src.n
    ctx.fact(n >= 0)
    upper = n if limit is None else z3.If(limit < n, limit, n)
    if ctx.entails(upper <= 0):
        return
    i0 = z3.Const(f"~i!{next(_alloc)}", I)
    alloc_mark = next(_alloc)
    counter0 = ctx.counter

    def run(prefix=None, groups=()):
        def f():
            ctx.gen.append(i0)
            ctx.fact(ctx.in_range(src, i0, limit))
            ctx.register(src, i0)
            marks = prefix() if prefix is not None else {}
            begin = len(ctx.trail)
            try:
                one(i0)
            except Sig as s:
                s.marks = marks
                raise
            for g in groups:
                g.preserved(it, i0, begin)
            return marks
        ctx.counter = counter0
        return ctx.explore(f)

    outcomes = run()
    oks = [o for o in outcomes if o.kind in ("ok",)]
    eff = classify(it, ctx, i0, oks, alloc_mark)
    if conflict(eff, outcomes, i0):
        first = eff

        def fixpoint(groups):
            eff = first
            for rnd in range(4):
                for g in groups:
                    eff.acc.pop(g.key, None)

                def prefix(eff=eff):
                    marks = install_prefix(it, ctx, src, i0, eff)
                    for g in groups:
                        marks[g.key] = g.install(ctx, src, i0)
                    return marks
                outcomes = run(prefix, groups)
                oks = [o for o in outcomes if o.kind == "ok"]
                # the installed prefix is not an effect of the iteration
                new = classify(it, ctx, i0, [strip_prefix(o, ctx) for o in oks], alloc_mark)
                if same_effects(eff, new):
                    for o in outcomes:
                        strip_prefix(o, ctx)
                    new.groups = groups
                    return outcomes, oks, new
                eff = new
            raise Unsupported("no inductive description of the loop was found")
        try:
            outcomes, oks, eff = fixpoint([])
        except EarlierIteration:
            groups = [g for g in (Group.of(k, e, i0, alloc_mark) for k, e in first.acc.items()) if g]
            if not groups:
                raise
            outcomes, oks, eff = fixpoint(groups)

    exits = [o for o in outcomes if o.kind != "ok"]
    if exits:
        e = ctx.fresh("exits", B)
        if ctx.branch(e):
            w = ctx.fresh("w", I)
            ctx.fact(ctx.in_range(src, w, limit))
            apply_effects(it, ctx, src, i0, w, oks, exits, eff)
            ctx.register(src, w)
            if not ctx.feasible():
                raise PathDead()
            one(w)
            raise PathDead()        # completed normally: not the exiting iteration
    apply_effects(it, ctx, src, i0, limit, oks, exits, eff)
    if exits and not ctx.feasible():
        raise PathDead()


class Group:
    """a loop that collects elements in one list per key:  table.setdefault(key, []).append(element)

    Before iteration i0, the table holds for the key of every earlier iteration the list of the elements of all
    earlier iterations with this key. `preserved` verifies that an iteration keeps this description."""

    @staticmethod
    def of(k, e, i0, mark):
        c, key, how, alts, old = e
        alts = [(g, d) for g, d in alts if d]
        if how != "segs" or c.kind != "dict" or old or not alts:
            return None
        if any(len(d) != 1 or not isinstance(d[0], DSet) or not is_term(d[0].k) or not d[0].k.eq(alts[0][1][0].k)
               or not isinstance(d[0].v, (HList, HSet)) or type(d[0].v) is not type(alts[0][1][0].v)
               or d[0].v.alloc < mark or not any(g.eq(i0) for g in d[0].v.gen)
               for _, d in alts):
            return None
        self = Group()
        self.key, self.c = k, c
        self.name = alts[0][1][0].k
        self.kind = type(alts[0][1][0].v)
        self.alts = [(b_term(g), Ctx.current.peek(d[0].v, "segs")) for g, d in alts]
        return self

    def comp(self, ctx, src, i0, limit):
        v = z3.Const(f"~p!{next(_alloc)}", I)
        w = z3.Const(f"~q!{next(_alloc)}", I)
        name = z3.substitute(self.name, (i0, v))
        ctx.gen.append(v)
        elements = self.kind((Comp(src, w, [
            (z3.And(z3.substitute(g, (i0, w)), z3.substitute(self.name, (i0, w)) == name),
             tuple(ctx.subst(s, i0, w) for s in segs)) for g, segs in self.alts], limit),))
        ctx.gen.pop()
        return elements, Comp(src, v, [(z3.substitute(z3.Or(*[g for g, _ in self.alts]), (i0, v)),
                                        (DSet(name, elements),))], limit)

    def install(self, ctx, src, i0):
        self.elements, comp = self.comp(ctx, src, i0, i0)
        self.mark = (comp,)
        ctx._put(self.c, "segs", self.mark)
        return self.mark

    def preserved(self, it, i0, begin):
        ctx = it.ctx
        written = ctx.peek(self.c, "segs")
        fam = self.elements.meta.get("tfam")
        changed = []
        for _, o in fam.state.slots["objs"] if fam is not None else ():
            segs = ctx.peek(o, "segs")
            if segs is MISSING:
                continue
            init = fam.init("segs", o.meta["idx"], o)
            if not segs or not same_value(segs[0], init[0]):
                raise Unsupported("a loop changes a list that an earlier iteration created")
            if len(segs) > 1:
                changed.append((o, segs[1:]))
        if written is self.mark and not changed:
            if not ctx.entails(z3.Not(z3.Or(*[g for g, _ in self.alts]))):
                raise Unsupported("a loop that groups elements: an element may be missing")
            self.escapes(ctx, begin, fam, None)
            return
        if written is not self.mark and not changed:
            if len(written) != 2 or written[0] is not self.mark[0] or not isinstance(written[1], DSet) \
                    or not is_term(written[1].k) or not written[1].k.eq(self.name) \
                    or type(written[1].v) is not self.kind or "fam" in written[1].v.meta:
                raise Unsupported("a loop that groups elements in an unknown way")
            own, added = written[1].v, ctx.peek(written[1].v, "segs")
        elif written is self.mark and len(changed) == 1:
            own, added = changed[0]
            if not ctx.entails(z3.substitute(self.name, (i0, own.meta["idx"][-1])) == self.name):
                raise Unsupported("a loop that groups elements by different keys")
        else:
            raise Unsupported("a loop that groups elements in an unknown way")
        for g, segs in self.alts:
            if ctx.entails(g) and same_value(tuple(added), tuple(segs)):
                break
        else:
            raise Unsupported("a loop that groups elements: the elements depend on earlier iterations")
        self.escapes(ctx, begin, fam, own)
        ctx._put(self.c, "segs", self.mark)

    def escapes(self, ctx, begin, fam, own):
        """the lists are only reachable through the table"""
        seen = set()

        def visit(v):
            if isinstance(v, (tuple, list)):
                for x in v:
                    visit(x)
            elif isinstance(v, (Lit, DSet)):
                visit(v.v)
            elif isinstance(v, Comp):
                for _, segs in v.alts:
                    visit(segs)
            elif isinstance(v, Obj) and id(v) not in seen:
                seen.add(id(v))
                if v is own or v is self.elements or fam is not None and v.meta.get("fam") is fam:
                    raise Unsupported("a loop that groups elements: a list is used elsewhere")
                if v is not self.c and v.kind != "env":
                    for x in list(v.slots.values()):
                        visit(x)
        for c, key, _ in ctx.trail[begin:]:
            if c is self.c or c.kind in ("env", "familystate") or c is own or c.meta.get("fam", 0) is fam:
                continue
            visit(c.slots.get(key))


def conflict(eff, outcomes, i0):
    """does an iteration read what other iterations write?"""
    written = set(eff.acc) | set(eff.const) | set(eff.env)
    for o in outcomes:
        for k, (c, key) in o.reads.items():
            if k in written:
                # re-reading a constant write is harmless only with the prefix
                return True
            for fo, keys in eff.fam.values():
                if "fam" in c.meta and c.meta["fam"] is fo.meta["fam"] and key in keys \
                        and c is not fo and not any(occurs(x, i0) for x in c.meta["idx"]):
                    raise Unsupported("a loop reads an element that other iterations change")
            for state, ups in eff.ups.values():
                if "fam" in c.meta and c.meta["fam"].state is state and not any(occurs(x, i0) for x in c.meta["idx"]) \
                        and any(key in ws for _, (_, _, alts) in ups for _, ws in alts):
                    raise Unsupported("a loop reads an element that other iterations change")
    return False


def install_prefix(it, ctx, src, i0, eff):
    """the state before iteration i0"""
    b = bi()
    marks = {}
    for k, (c, key, how, alts, old) in eff.acc.items():
        comp = Comp(src, i0, alts, None)
        v = z3.Const(f"~p!{next(_alloc)}", I)
        comp = rename(ctx, comp, i0, v, i0)
        if how == "segs":
            val = old + (comp,)
            marks[k] = val
            ctx._put(c, key, val)
        else:
            nv = type(old)(ctx.peek(old, "segs") + (comp,))
            if isinstance(old, HDict):
                nv.meta.update(old.meta)
            marks[k] = nv
            ctx._put(c, key, nv)
    for k, (c, key, value, guards) in eff.const.items():
        if guards is None:
            first = ctx.branch(i0 == 0)
        else:
            raise Unsupported("a flag that is set by some iterations is read in the loop")
        if not first:
            marks[k] = value
            ctx._put(c, key, value)
    for k, (c, key) in eff.env.items():
        ctx._put(c, key, Poison("depends on earlier iterations"))
    return marks


def rename(ctx, comp, i0, v, limit):
    alts = [(z3.substitute(b_term(g), (i0, v)), tuple(ctx.subst(s, i0, v) for s in segs))
            for g, segs in comp.alts]
    return Comp(comp.src, v, alts, limit, comp.injective)


def b_term(g):
    return bi().boolterm(g)


def strip_prefix(o, ctx):
    """make the recorded old values of an outcome those after the prefix was installed"""
    marks = o.value if o.kind == "ok" else o.value.marks
    for k, w in o.writes.items():
        if k in marks:
            w[2] = marks[k]
    return o


def same_effects(x, y):
    if set(x.acc) != set(y.acc) or set(x.const) != set(y.const) or set(x.env) != set(y.env):
        return False
    for k in x.acc:
        if not same_alts(x.acc[k][3], y.acc[k][3]):
            return False
    return True


def apply_effects(it, ctx, src, i0, limit, oks, exits, eff):
    b = bi()
    rng = ctx.in_range(src, i0, limit)
    pat = src.params + (i0,)
    # facts of the iterations
    for o in oks:
        g = guard_of(o)
        for kind, f in o.items:
            if kind == "fact" or kind == "use" and any(occurs(f, i) for i in (i0,)):
                if z3.is_true(z3.simplify(f)) or f.eq(rng):
                    continue
                ctx.ufact(src.t, pat, (i0,), z3.Implies(z3.And(rng, g), f))
            elif kind == "ufact":
                srct, p2, free, formula = f
                if srct is src.t and len(free) == 0:
                    continue
                ctx.ufact(srct, p2, tuple(free) + (i0,), z3.Implies(z3.And(rng, g), formula))
    if exits and oks:
        # every iteration is one of those that were explored
        ctx.ufact(src.t, pat, (i0,), z3.Implies(rng, z3.Or(*[guard_of(o) for o in oks])))
    for o in exits:
        g = guard_of(o)
        ctx.ufact(src.t, pat, (i0,), z3.Implies(rng, z3.Not(g)))
        if z3.is_true(z3.simplify(g)):
            up = src.n if limit is None else z3.If(limit < src.n, limit, src.n)
            ctx.fact(up <= 0)
    # effects
    for k, (c, key, how, alts, old) in eff.acc.items():
        alts = [(g, d) for g, d in alts if d]
        cur = ctx.peek(c, key)
        comp = Comp(src, i0, alts, limit)
        if how == "segs":
            if alts:
                # `cur` may already hold a prefix: restore the entry value
                ctx.put(c, key, strip_to(ctx, old, cur) + (comp,))
        else:
            base = cur if isinstance(cur, (HList, HDict, HSet)) else old
            nv = type(old)(ctx.peek(base, "segs") + ((comp,) if alts else ()))
            if isinstance(old, HDict):
                nv.meta.update(old.meta)
            up = src.n if limit is None else limit
            ctx.put(c, key, nv)
    for g in eff.groups:
        ctx.put(g.c, "segs", (g.comp(ctx, src, i0, limit)[1],))
    for k, (c, key, value, guards) in eff.const.items():
        if guards is None:
            up = src.n if limit is None else z3.If(limit < src.n, limit, src.n)
            if ctx.branch(up > 0):
                ctx.put(c, key, fresh_const(value))
            continue
        e = ctx.fresh("written", B)
        g = b.boolterm(b.disj(guards))
        if ctx.branch(e):
            w = ctx.fresh("w", I)
            ctx.fact(ctx.in_range(src, w, limit))
            ctx.fact(z3.substitute(g, (i0, w)))
            ctx.register(src, w)
            ctx.put(c, key, fresh_const(value))
        else:
            ctx.ufact(src.t, pat, (i0,), z3.Implies(rng, z3.Not(g)))
    for c, keys in eff.fam.values():
        fam = c.meta["fam"]
        alts = [(g, {key: v}) for key, l in keys.items() for g, v in l]
        # one update per slot: the guards of different slots are not disjoint
        ups = fam.state.slots["updates"]
        for key, l in keys.items():
            ups = ups + ((((src, i0, limit),), c.meta["idx"], [(g, {key: v}) for g, v in l]),)
        update_family(ctx, fam.state, ups)
    for state, ups in eff.ups.values():
        new = tuple((ls + ((src, i0, limit),), idx, [(z3.And(g, b.boolterm(g2)), ws) for g2, ws in alts])
                    for g, (ls, idx, alts) in ups)
        update_family(ctx, state, state.slots["updates"] + new)
    for k, (c, key) in eff.env.items():
        ctx.put(c, key, Poison("set in a loop"))


def update_family(ctx, state, ups):
    ctx._put(state, "updates", ups)
    if ctx.readwrites is not None:
        ctx.readwrites.add((id(state), "updates"))


def strip_to(ctx, old, cur):
    return cur if isinstance(cur, tuple) else old


def fresh_const(v):
    if isinstance(v, (HList, HSet)):
        return type(v)()
    if isinstance(v, HDict):
        return HDict(cls=v.cls)
    return v
