"""
An over-approximation of formulas about texts: sequences become values of an
uninterpreted sort and operations on them become uninterpreted functions, with a
few instances of valid axioms. What is unsatisfiable here is unsatisfiable; the
solver answers it without its (slow) sequence theory.
"""
import z3

_sorts = {}
_lits = {}
_cache = {}
_keep = []


def sort_of(s):
    if s.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT):
        n = "U_" + s.sexpr()
        if n not in _sorts:
            _sorts[n] = z3.DeclareSort(n)
        return _sorts[n]
    return s


def abstracted(s):
    return s.kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT)


def fn(name, *sorts):
    return z3.Function(name, *sorts)


def literal(e):
    v = e.sexpr()
    if v not in _lits:
        U = sort_of(e.sort())
        c = z3.Const(f"lit!{len(_lits)}", U)
        code = fn("code", U, z3.IntSort())
        length = fn("len!", U, z3.IntSort())
        n = z3.simplify(z3.Length(e))
        _lits[v] = (c, z3.And(code(c) == len(_lits), length(c) == n))
    return _lits[v]


def length(e, facts):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = 0
        for c in e.children():
            out = out + length(c, facts)
        return out
    if z3.is_string_value(e):
        return z3.simplify(z3.Length(e))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_UNIT:
        return z3.IntVal(1)
    a = conv(e, facts)
    l = fn("len!", a.sort(), z3.IntSort())(a)
    facts.append(l >= 0)
    if e.sort() == z3.StringSort():
        facts.append((l == 0) == (a == conv(z3.StringVal(""), facts)))
    return l


def contains(x, c, facts):
    """x contains the literal character c"""
    if z3.is_string_value(x):
        return z3.simplify(z3.Contains(x, c))
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return z3.Or([contains(y, c, facts) for y in x.children()])
    a, b = conv(x, facts), conv(c, facts)
    r = fn("contains!", a.sort(), b.sort(), z3.BoolSort())(a, b)
    facts.append(z3.Implies(r, length(x, facts) > 0))
    return r


def char(e):
    return z3.is_string_value(e) and z3.simplify(z3.Length(e)).as_long() == 1


def conv(e, facts):
    k = e.get_id()
    hit = _cache.get(k)
    if hit is None:
        fs = []
        r = _conv(e, fs)
        seen = {}
        for f in fs:
            seen.setdefault(f.get_id(), f)
        hit = (r, list(seen.values()))
        _keep.append(e)         # the id stays valid
        _cache[k] = hit
    facts.extend(hit[1])
    return hit[0]


def _conv(e, facts):
    if not z3.is_app(e):
        return z3.FreshConst(sort_of(e.sort()), "opaque")
    d = e.decl()
    kind = d.kind()
    if z3.is_string_value(e):
        c, f = literal(e)
        facts.append(f)
        return c
    if kind == z3.Z3_OP_SEQ_LENGTH:
        return length(e.arg(0), facts)
    if kind == z3.Z3_OP_SEQ_CONTAINS and char(e.arg(1)):
        return contains(e.arg(0), e.arg(1), facts)
    args = [conv(a, facts) for a in e.children()]
    if kind == z3.Z3_OP_UNINTERPRETED:
        if abstracted(d.range()) or any(abstracted(d.domain(i)) for i in range(d.arity())):
            doms = [sort_of(d.domain(i)) for i in range(d.arity())]
            if not doms:
                return z3.Const(d.name() + "!a", sort_of(d.range()))
            return fn(d.name() + "!a", *doms, sort_of(d.range()))(*args)
        return d(*args) if args else e
    seq = abstracted(e.sort()) or any(abstracted(a.sort()) for a in e.children())
    if not seq:
        if not args:
            return e
        return rebuild(d, kind, args)
    if kind in (z3.Z3_OP_EQ, z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT):
        if kind == z3.Z3_OP_EQ:
            return args[0] == args[1]
        if kind == z3.Z3_OP_ITE:
            return z3.If(*args)
        return z3.Distinct(*args)
    name = d.name() + str(d.params()) + "!op"
    if not args:
        return z3.Const(name, sort_of(e.sort()))
    r = fn(name, *[a.sort() for a in args], sort_of(e.sort()))(*args)
    if kind in (z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX) and char(e.arg(0)):
        facts.append(z3.Implies(r, contains(e.arg(1), e.arg(0), facts)))
    return r


def rebuild(d, kind, args):
    if kind == z3.Z3_OP_AND:
        return z3.And(args)
    if kind == z3.Z3_OP_OR:
        return z3.Or(args)
    if kind == z3.Z3_OP_NOT:
        return z3.Not(args[0])
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(args)
    if kind == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*args)
    if kind == z3.Z3_OP_ITE:
        return z3.If(*args)
    if kind == z3.Z3_OP_EQ:
        return args[0] == args[1]
    if kind == z3.Z3_OP_IMPLIES:
        return z3.Implies(*args)
    if kind == z3.Z3_OP_MUL and len(args) > 2:
        return z3.Product(args)
    return d(*args)


def abstract(f):
    """(formula, side facts)"""
    facts = []
    r = conv(f, facts)
    return [r] + facts
