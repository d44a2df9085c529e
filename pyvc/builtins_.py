"""
pyvc: Python's built-in operations on symbolic values.
"""
import ast
import builtins as pyb
import re

import z3

from .core import (
    B, I, MISSING, S, SeqS, Val, Comp, Ctx, DDel, DPair, DSet, Env, Fam,
    GenAbort, GenV, HDict, HList, HSet, Lit, Obj, PathDead, PathV, Poison,
    PyRaise, SegView, Sig, Src, StrSeq, Unsupported, is_term,
)
from .interp import (
    BoundV, Builtin, BytesV, ClassMethodV, ClsV, CtxMgrFunc, ExtCtxMgr, FmtStr,
    FuncV, ModV, OpaqueV, PropV, StaticV, SuperV,
)
from . import loops

CONC = (str, int, float, bytes, bool, type(None))


class UuidV:
    """a uuid.UUID, given by its canonical text"""

    def __init__(self, term):
        self.term = term

    def subst(self, ctx, var, t):
        return UuidV(ctx.subst(self.term, var, t))


class JoinV:
    """the text sep.join(list) of a list with symbolic length"""

    def __init__(self, sep, segs):
        self.sep = sep
        self.segs = segs

    def subst(self, ctx, var, t):
        return JoinV(self.sep, ctx.subst(self.segs, var, t))


class HomV:
    """text obtained from base by replacing single characters"""

    def __init__(self, base, table, pre="", post=""):
        self.base = base
        self.table = dict(table)
        self.pre = pre
        self.post = post

    def subst(self, ctx, var, t):
        return HomV(ctx.subst(self.base, var, t), self.table, self.pre, self.post)


def is_str(v):
    return isinstance(v, (str, FmtStr, JoinV, HomV)) or (is_term(v) and v.sort() == S)


def is_bool(v):
    return isinstance(v, bool) or (is_term(v) and v.sort() == B)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_term(v) and v.sort() == I)


def term(v):
    """z3 term for a scalar"""
    if is_term(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, str):
        return z3.StringVal(v) if v.isascii() else z3.StringVal("".join(
            c if ord(c) < 128 else "\\u{%x}" % ord(c) for c in v))
    if isinstance(v, (PathV, UuidV, StrSeq)):
        return v.term
    raise Unsupported(f"no term for {v!r}")


def conj(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def disj(fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def neg(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)


def boolterm(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


# ---------------------------------------------------------------- truth, types

def known_len(it, t):
    """the length of a text, if it is known from its origin (ids, UUIDs)"""
    if z3.is_app(t):
        return it.ctx.tables.get("len_decl", {}).get(t.decl().name())
    return None


def truthy(it, v):
    if isinstance(v, it.externals.LinesV):
        return loops.nonempty(it, HList(v.segs))
    if isinstance(v, BytesV):
        return True if v.text is None else truthy(it, v.text)
    if isinstance(v, (bool, type(None), int, float, str, bytes)):
        return bool(v)
    if is_term(v):
        if v.sort() == B:
            return v
        if v.sort() == I:
            return v != 0
        if v.sort() == S:
            if known_len(it, v):
                return True
            return v != z3.StringVal("")
        return it.ctx.fresh("truth", B)
    if isinstance(v, tuple):
        return len(v) > 0
    if isinstance(v, (HList, HDict, HSet)):
        return loops.nonempty(it, v)
    if isinstance(v, SegView):
        return loops.nonempty(it, v.d)
    if isinstance(v, StrSeq):
        return z3.Length(v.term) > 0
    if isinstance(v, PathV):
        return z3.Length(v.term) > 0
    if isinstance(v, (FmtStr, HomV)):
        return True
    if isinstance(v, Obj) and isinstance(v.cls, ClsV):
        f = it.class_attr(v.cls, "__bool__")
        if f is not MISSING:
            return truthy(it, it.call(it.bind(f, v), [], {}))
        f = it.class_attr(v.cls, "__len__")
        if f is not MISSING:
            return truthy(it, it.call(it.bind(f, v), [], {}))
        return True
    return True


def type_of(it, v):
    b = it.builtins
    if v is None:
        return b["NoneType"]
    if is_bool(v):
        return b["bool"]
    if is_int(v):
        return b["int"]
    if is_str(v):
        return b["str"]
    if isinstance(v, float):
        return b["float"]
    if isinstance(v, (bytes, BytesV)):
        return b["bytes"]
    if isinstance(v, (tuple, StrSeq)):
        return b["tuple"]
    if isinstance(v, HList):
        return v.cls if isinstance(v.cls, ClsV) else b["list"]
    if isinstance(v, HDict):
        return v.cls if isinstance(v.cls, ClsV) else b["dict"]
    if isinstance(v, HSet):
        return b["set"]
    if isinstance(v, PathV):
        return it.lookup_class("dataladmetadatamodel.metadatapath.MetadataPath")
    if isinstance(v, UuidV):
        return it.externals.uuid_class
    if isinstance(v, ClsV):
        return b["type"]
    if isinstance(v, Obj) and isinstance(v.cls, ClsV):
        return v.cls
    if isinstance(v, (FuncV, BoundV, Builtin)):
        return b["function"]
    if isinstance(v, (GenV, SegView)):
        return b["generator"]
    if is_term(v) and v.sort() == Val:
        return None
    raise Unsupported(f"type of {v!r}")


def isinstance_(it, v, c):
    if isinstance(c, tuple):
        return disj([isinstance_(it, v, x) for x in c])
    if isinstance(c, OpaqueV):
        raise Unsupported("isinstance with a typing construct")
    if is_term(v) and v.sort() == Val:
        hook = it.ctx.tables.get("val_isinstance")
        if hook:
            return hook(it, v, c)
        if c.name in ("NoneType", "str", "int", "float", "bool", "dict", "list"):
            f = z3.Function(f"is_{c.name}", Val, B)
            return f(v)
        return False
    t = type_of(it, v)
    return c in t.mro


# ---------------------------------------------------------------- equality

def eq(it, a, b):
    """a == b: bool or formula"""
    if a is b and not isinstance(a, float):
        if not (isinstance(a, Obj) and isinstance(a.cls, ClsV)):
            return True
    if isinstance(a, CONC) and isinstance(b, CONC):
        return a == b
    ta, tb = is_term(a), is_term(b)
    if ta or tb:
        if ta and tb:
            if a.sort() != b.sort():
                if Val in (a.sort(), b.sort()):
                    return boolterm(to_val(it, a) == to_val(it, b))
                return False
            if a.eq(b):
                return True
            if a.sort() == S:
                n, m = known_len(it, a), known_len(it, b)
                if n is not None and m is not None and n != m:
                    return False
            return z3.simplify(a == b)
        t, o = (a, b) if ta else (b, a)
        if isinstance(o, bool):
            if t.sort() == B:
                return t if o else z3.Not(t)
            return False
        if isinstance(o, str) and t.sort() == S:
            n = known_len(it, t)
            if n is not None and n != len(o):
                return False
            return z3.simplify(t == term(o))
        if isinstance(o, int) and t.sort() == I:
            return z3.simplify(t == o)
        if t.sort() == Val and o is not None:
            v = to_val(it, o, quiet=True)
            return False if v is None else z3.simplify(t == v)
        if t.sort() == Val and o is None:
            f = z3.Function("is_NoneType", Val, B)
            return f(t)
        if isinstance(o, (FmtStr, JoinV, HomV)) and t.sort() == S:
            return it.ctx.fresh("streq", B)
        return False
    if isinstance(a, (PathV, UuidV)) or isinstance(b, (PathV, UuidV)):
        if type(a) is not type(b):
            return False
        return eq(it, a.term, b.term)
    if isinstance(a, (tuple, StrSeq)) and isinstance(b, (tuple, StrSeq)):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj_lazy(it, [(x, y) for x, y in zip(a, b)])
        return eq(it, seqterm(a), seqterm(b))
    if isinstance(a, FmtStr) or isinstance(b, FmtStr):
        if is_str(a) and is_str(b):
            return it.ctx.fresh("streq", B)
        return False
    if isinstance(a, HomV) and isinstance(b, HomV):
        return conj([eq(it, a.base, b.base), (a.table, a.pre, a.post) == (b.table, b.pre, b.post)])
    if isinstance(a, JoinV) and isinstance(b, JoinV):
        return conj([a.sep == b.sep, loops.eq_segs(it, a.segs, b.segs)])
    if isinstance(a, BytesV) and isinstance(b, BytesV):
        return eq(it, a.text, b.text)
    if isinstance(a, BytesV) or isinstance(b, BytesV):
        o, p = (a, b) if isinstance(a, BytesV) else (b, a)
        if isinstance(p, bytes):
            try:
                return eq(it, o.text, p.decode())
            except UnicodeDecodeError:
                return False
        return False
    if isinstance(a, Obj) and isinstance(a.cls, ClsV):
        f = it.class_attr(a.cls, "__eq__")
        if f is not MISSING:
            return truthy(it, it.call(it.bind(f, a), [b], {}))
    if isinstance(b, Obj) and isinstance(b.cls, ClsV):
        f = it.class_attr(b.cls, "__eq__")
        if f is not MISSING:
            return truthy(it, it.call(it.bind(f, b), [a], {}))
    if isinstance(a, HList) and isinstance(b, HList):
        return loops.eq_segs(it, it.ctx.get(a, "segs"), it.ctx.get(b, "segs"))
    if isinstance(a, HDict) and isinstance(b, HDict):
        return loops.eq_dicts(it, a, b)
    if isinstance(a, HSet) and isinstance(b, HSet):
        return loops.eq_sets(it, a, b)
    if a is b:
        return True
    return identical(it, a, b)


def conj_lazy(it, pairs):
    out = []
    for x, y in pairs:
        f = eq(it, x, y)
        if f is False:
            return False
        out.append(f)
    return conj(out)


def identical(it, a, b):
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.meta.get("fam") is not None and a.meta.get("fam") is b.meta.get("fam"):
            return conj([eq(it, x, y) for x, y in zip(a.meta["idx"], b.meta["idx"])])
        return False
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        if is_term(a) or is_term(b):
            t, o = (a, b) if is_term(a) else (b, a)
            if t.sort() == B and isinstance(o, bool):
                return t if o else z3.Not(t)
            if t.sort() == Val and o is None:
                return z3.Function("is_NoneType", Val, B)(t)
            return False
        return a is b
    if is_term(a) and is_term(b):
        return eq(it, a, b)
    if isinstance(a, CONC) and isinstance(b, CONC):
        return type(a) is type(b) and a == b
    return False


def seqterm(v):
    if isinstance(v, StrSeq):
        return v.term
    if isinstance(v, PathV):
        return v.term
    if len(v) == 0:
        return z3.Empty(SeqS)
    us = [z3.Unit(term(x)) for x in v]
    return us[0] if len(us) == 1 else z3.Concat(us)


_val_str = z3.Function("val_of_str", S, Val)
_val_int = z3.Function("val_of_int", I, Val)
_val_bool = z3.Function("val_of_bool", B, Val)


def to_val(it, v, quiet=False):
    if is_term(v):
        if v.sort() == Val:
            return v
        if v.sort() == S:
            return _val_str(v)
        if v.sort() == I:
            return _val_int(v)
        if v.sort() == B:
            return _val_bool(v)
    if isinstance(v, bool):
        return _val_bool(z3.BoolVal(v))
    if isinstance(v, int):
        return _val_int(z3.IntVal(v))
    if isinstance(v, str):
        return _val_str(term(v))
    if quiet:
        return None
    raise Unsupported(f"no JSON value for {v!r}")


# ---------------------------------------------------------------- comparison

def compare(it, op, a, b):
    if isinstance(op, ast.Eq):
        return eq(it, a, b)
    if isinstance(op, ast.NotEq):
        if isinstance(a, Obj) and isinstance(a.cls, ClsV):
            f = it.class_attr(a.cls, "__ne__")
            if f is not MISSING:
                return it.call(it.bind(f, a), [b], {})
        return neg(eq(it, a, b))
    if isinstance(op, ast.Is):
        return identical(it, a, b)
    if isinstance(op, ast.IsNot):
        return neg(identical(it, a, b))
    if isinstance(op, ast.In):
        return contains(it, b, a)
    if isinstance(op, ast.NotIn):
        return neg(contains(it, b, a))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if isinstance(a, tuple) and isinstance(b, tuple) and all(isinstance(x, CONC) for x in a + b):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if is_int(a) and is_int(b):
        x, y = term(a), term(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]
    if is_term(a) and a.sort() == Val or is_term(b) and b.sort() == Val:
        return it.ctx.fresh("order", B)
    if isinstance(a, HSet) and isinstance(b, HSet) and isinstance(op, (ast.LtE, ast.GtE)):
        x, y = (a, b) if isinstance(op, ast.LtE) else (b, a)
        return loops.subset(it, x, y)
    raise Unsupported(f"comparison {type(op).__name__} of {a!r} and {b!r}")


def contains(it, c, x):
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if is_str(c):
        if isinstance(c, (FmtStr, JoinV, HomV)):
            raise Unsupported("substring test on a composed text")
        return z3.simplify(z3.Contains(term(c), term(x)))
    if isinstance(c, tuple):
        return disj([eq(it, y, x) for y in c])
    if isinstance(c, StrSeq):
        return z3.Contains(c.term, z3.Unit(term(x)))
    if isinstance(c, HList):
        return loops.list_contains(it, c, x)
    if isinstance(c, HDict):
        return loops.dict_has(it, c, x)
    if isinstance(c, HSet):
        return loops.set_has(it, c, x)
    if isinstance(c, SegView):
        if c.what == "keys":
            return loops.dict_has(it, c.d, x)
        return loops.iter_contains(it, c, x)
    if isinstance(c, Obj) and isinstance(c.cls, ClsV):
        f = it.class_attr(c.cls, "__contains__")
        if f is not MISSING:
            return truthy(it, it.call(it.bind(f, c), [x], {}))
        return loops.iter_contains(it, c, x)
    if isinstance(c, GenV):
        return loops.iter_contains(it, c, x)
    raise Unsupported(f"membership in {c!r}")


# ---------------------------------------------------------------- operators

def binop(it, op, a, b):
    num = (int, float)
    if isinstance(op, ast.Add):
        if isinstance(a, num) and isinstance(b, num):
            return a + b
        if is_str(a) and is_str(b):
            return concat(it, [a, b])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (tuple, StrSeq)) and isinstance(b, (tuple, StrSeq)):
            return StrSeq(z3.simplify(z3.Concat(seqterm(a), seqterm(b))))
        if isinstance(a, HList) and isinstance(b, HList):
            return HList(it.ctx.get(a, "segs") + it.ctx.get(b, "segs"))
        if is_int(a) and is_int(b):
            return term(a) + term(b)
        if isinstance(a, (bytes, BytesV)) and isinstance(b, (bytes, BytesV)):
            return bytes_concat(it, a, b)
        if is_term(a) and a.sort() == Val or is_term(b) and b.sort() == Val:
            return it.ctx.fresh("sum", Val)
    if isinstance(op, ast.Sub):
        if isinstance(a, num) and isinstance(b, num):
            return a - b
        if is_int(a) and is_int(b):
            return term(a) - term(b)
        if isinstance(a, (HSet, SegView)) and isinstance(b, (HSet, SegView)):
            return loops.set_op(it, "-", to_set(it, a), to_set(it, b))
        if is_term(a) and a.sort() == Val or is_term(b) and b.sort() == Val:
            return it.ctx.fresh("difference", Val)
    if isinstance(op, ast.Mult):
        if isinstance(a, num) and isinstance(b, num):
            return a * b
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, HList) and isinstance(b, int):
            return HList(it.ctx.get(a, "segs") * b)
    if isinstance(op, ast.Mod):
        if isinstance(a, num) and isinstance(b, num):
            return a % b
        if isinstance(a, str):
            return FmtStr() if isinstance(b, HDict) else percent_format(it, a, b)
        if is_int(a) and is_int(b):
            return term(a) % term(b)
    if isinstance(op, ast.FloorDiv) and isinstance(a, num) and isinstance(b, num):
        return a // b
    if isinstance(op, ast.Div):
        if isinstance(a, num) and isinstance(b, num):
            return a / b
        return it.externals.div(a, b)
    if isinstance(op, ast.BitAnd) and isinstance(a, (HSet, SegView)):
        return loops.set_op(it, "&", to_set(it, a), to_set(it, b))
    if isinstance(op, ast.BitOr):
        if isinstance(a, (HSet, SegView)) and isinstance(b, (HSet, SegView)):
            return loops.set_op(it, "|", to_set(it, a), to_set(it, b))
        if isinstance(a, HDict) and isinstance(b, HDict):
            r = HDict(it.ctx.get(a, "segs"))
            update(it, r, b)
            return r
        if isinstance(a, (ClsV, OpaqueV)):
            return OpaqueV("union")
        if is_bool(a) and is_bool(b):
            return disj([a, b])
    if isinstance(op, ast.BitAnd) and is_bool(a) and is_bool(b):
        return conj([a, b])
    if isinstance(a, Obj) and isinstance(a.cls, ClsV):
        n = {ast.Add: "__add__", ast.Sub: "__sub__", ast.BitOr: "__or__", ast.Div: "__truediv__"}.get(type(op))
        if n:
            f = it.class_attr(a.cls, n)
            if f is not MISSING:
                return it.call(it.bind(f, a), [b], {})
    raise Unsupported(f"operator {type(op).__name__} on {a!r} and {b!r}")


def to_set(it, v):
    if isinstance(v, HSet):
        return v
    out = HSet()
    loops.foreach(it, v, lambda x: set_add(it, out, x))
    return out


def concat(it, parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    if any(p is None or isinstance(p, (FmtStr, JoinV)) for p in parts):
        if all(p == "" or isinstance(p, JoinV) for p in parts if not p is None) \
                and sum(isinstance(p, JoinV) for p in parts) == 1 and None not in parts:
            return [p for p in parts if isinstance(p, JoinV)][0]
        return FmtStr(parts)
    homs = [p for p in parts if isinstance(p, HomV)]
    if homs:
        if len(homs) == 1 and all(isinstance(p, (str, HomV)) for p in parts):
            k = parts.index(homs[0])
            h = homs[0]
            return HomV(h.base, h.table, "".join(parts[:k]) + h.pre, h.post + "".join(parts[k + 1:]))
        # the image of a homomorphism as part of a longer text
        parts = [it.externals.hom_term(p) if isinstance(p, HomV) else p for p in parts]
    ts = []
    for p in parts:
        if isinstance(p, str):
            if p == "":
                continue
            p = term(p)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            kids = p.children()
        else:
            kids = [p]
        for k in kids:
            if ts and z3.is_string_value(ts[-1]) and z3.is_string_value(k):
                ts[-1] = z3.StringVal(ts[-1].as_string() + k.as_string())
            else:
                ts.append(k)
    if not ts:
        return ""
    if len(ts) == 1:
        return untrm(ts[0])
    return z3.Concat(ts)


def untrm(t):
    if z3.is_string_value(t):
        s = t.as_string()
        return unescape_z3(s)
    return t


def unescape_z3(s):
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def bytes_concat(it, a, b):
    def t(x):
        if isinstance(x, bytes):
            return x.decode("latin-1")
        return x.text
    x, y = t(a), t(b)
    if x is None or y is None:
        return BytesV(it.ctx.fresh("bytes", S))
    return BytesV(concat(it, [x, y]))


def format_value(it, x):
    """the text of a value in an f-string: a str, a term, or None (unknown)"""
    if isinstance(x, str):
        return x
    if isinstance(x, bool) or x is None or isinstance(x, (int, float)):
        return str(x)
    if is_term(x) and x.sort() == S:
        return x
    if is_term(x) and x.sort() == I:
        return b_str(it, [x], {})
    if isinstance(x, (HomV, JoinV, FmtStr)):
        return x
    if isinstance(x, UuidV):
        return x.term
    if isinstance(x, Obj) and x.cls in (it.externals.path_class,):
        return it.externals.path_str(x)
    return None


# ---------------------------------------------------------------- containers

def unpack(it, v, n):
    if isinstance(v, tuple):
        vals = list(v)
    elif isinstance(v, StrSeq):
        if not it.ctx.branch(z3.Length(v.term) == n):
            it.throw("ValueError", "unpack")
        return [nth(it, v.term, k) for k in range(n)]
    else:
        vals = to_pylist(it, v)
    if len(vals) != n:
        it.throw("ValueError", "unpack")
    return vals


def to_pylist(it, v):
    """a list of known length"""
    if isinstance(v, tuple):
        return list(v)
    out = []
    loops.foreach(it, v, out.append, literal_only=True)
    return out


def to_kwargs(it, d):
    items = loops.dict_items(it, d)
    if items is None:
        raise Unsupported("** with a symbolic dictionary")
    return dict(items)


def list_append(it, l, v):
    it.ctx.put(l, "segs", it.ctx.peek(l, "segs") + (Lit(v),))


def list_extend(it, l, other):
    if isinstance(other, HList):
        it.ctx.put(l, "segs", it.ctx.peek(l, "segs") + it.ctx.get(other, "segs"))
        return
    loops.foreach(it, other, lambda x: list_append(it, l, x))


def set_add(it, s, v):
    segs = it.ctx.peek(s, "segs")
    for seg in segs:
        if isinstance(seg, Lit):
            f = quick_eq(it, seg.v, v)
            if f is True:
                return
    it.ctx.put(s, "segs", segs + (Lit(v),))


def quick_eq(it, a, b):
    """cheap equality on scalars, None if undecided"""
    if a is b:
        return True
    if isinstance(a, CONC) and isinstance(b, CONC):
        return a == b
    if is_term(a) and is_term(b) and a.eq(b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        r = [quick_eq(it, x, y) for x, y in zip(a, b)]
        if all(x is True for x in r):
            return True
        if any(x is False for x in r):
            return False
        return None
    if isinstance(a, (PathV, UuidV)) and type(a) is type(b):
        if a.term.eq(b.term) if is_term(a.term) and is_term(b.term) else a.term == b.term:
            return True
    return None


def dict_set(it, d, k, v):
    segs = it.ctx.peek(d, "segs")
    if all(isinstance(s, DSet) for s in segs) and not it.ctx.gen:
        for n, s in enumerate(segs):
            if quick_eq(it, s.k, k) is True:
                it.ctx.put(d, "segs", segs[:n] + (DSet(s.k, v),) + segs[n + 1:])
                return
    it.ctx.put(d, "segs", segs + (DSet(k, v),))


def update(it, d, other):
    if isinstance(other, Obj) and not isinstance(other, (HDict, HSet, HList)) and native(it, other, "$dict"):
        other = it.ctx.get(other, "$dict")
    if isinstance(d, HSet):
        if isinstance(other, HSet):
            it.ctx.put(d, "segs", it.ctx.get(d, "segs") + it.ctx.get(other, "segs"))
            return
        loops.foreach(it, other, lambda x: set_add(it, d, x))
        return
    if isinstance(other, HDict):
        items = loops.dict_items(it, other)
        if items is None:
            it.ctx.put(d, "segs", it.ctx.get(d, "segs") + it.ctx.get(other, "segs"))
        else:
            for k, v in items:
                dict_set(it, d, k, v)
        return
    if isinstance(other, (HList, tuple, GenV, SegView)):
        def one(p):
            k, v = unpack(it, p, 2)
            dict_set(it, d, k, v)
        loops.foreach(it, other, one)
        return
    raise Unsupported(f"update with {other!r}")


def delitem(it, o, k):
    if isinstance(o, HDict):
        f, v = loops.dict_get(it, o, k)
        if not f:
            it.throw("KeyError", k)
        loops.dict_del(it, o, k)
        return
    if isinstance(o, HList):
        vals = to_pylist(it, o)
        del vals[k]
        it.ctx.put(o, "segs", tuple(Lit(v) for v in vals))
        return
    raise Unsupported("del item")


def nth(it, t, k):
    if isinstance(t, StrSeq):
        t = t.term
    n = k if not isinstance(k, int) or k >= 0 else z3.Length(t) + k
    r = z3.simplify(t[n])
    return untrm(r)


def getitem(it, o, k):
    if isinstance(o, slice):
        raise Unsupported("slice")
    if isinstance(o, (str, bytes, tuple)) and (isinstance(k, int) or isinstance(k, slice) and all(
            isinstance(x, (int, type(None))) for x in (k.start, k.stop, k.step))):
        try:
            return o[k]
        except IndexError:
            it.throw("IndexError", "index out of range")
    if isinstance(o, PathV):
        raise Unsupported("path subscript")
    if isinstance(o, StrSeq):
        return seq_getitem(it, o, k)
    if is_str(o):
        return str_slice(it, o, k)
    if isinstance(o, HDict):
        found, v = loops.dict_get(it, o, k)
        if found:
            return v
        if o.meta.get("default_factory") is not None:
            v = it.call(o.meta["default_factory"], [], {})
            dict_set(it, o, k, v)
            return v
        it.throw("KeyError", k)
    if isinstance(o, HList):
        return loops.list_getitem(it, o, k)
    if isinstance(o, Obj) and isinstance(o.cls, ClsV):
        f = it.class_attr(o.cls, "__getitem__")
        if f is not MISSING:
            return it.call(it.bind(f, o), [k], {})
        if native(it, o, "$dict"):
            return getitem(it, it.ctx.get(o, "$dict"), k)
        it.throw("TypeError", "not subscriptable")
    if isinstance(o, ClsV):
        if o.meta.get("enum"):
            for m in o.meta["members"]:
                if it.ctx.branch(eq(it, it.ctx.get(m, "name"), k)):
                    return m
            it.throw("KeyError", k)
        return o
    if is_term(o) and o.sort() == Val:
        return it.externals.val_getitem(o, k)
    raise Unsupported(f"subscript of {o!r}")


def setitem(it, o, k, v):
    if isinstance(o, HDict):
        dict_set(it, o, k, v)
        return
    if isinstance(o, HList):
        vals = to_pylist(it, o)
        if not isinstance(k, int):
            raise Unsupported("list assignment at a symbolic index")
        try:
            vals[k] = v
        except IndexError:
            it.throw("IndexError", "list assignment")
        it.ctx.put(o, "segs", tuple(Lit(x) for x in vals))
        return
    if isinstance(o, Obj) and isinstance(o.cls, ClsV):
        f = it.class_attr(o.cls, "__setitem__")
        if f is not MISSING:
            it.call(it.bind(f, o), [k, v], {})
            return
        if native(it, o, "$dict"):
            setitem(it, it.ctx.get(o, "$dict"), k, v)
            return
    raise Unsupported(f"item assignment on {o!r}")


def seq_getitem(it, o, k):
    t = o.term
    if isinstance(k, int):
        ln = z3.Length(t)
        ok = ln > k if k >= 0 else ln >= -k
        if not it.ctx.branch(ok):
            it.throw("IndexError", "tuple index out of range")
        return nth(it, t, k)
    if isinstance(k, slice) and k.step is None:
        ln = z3.Length(t)

        def pos(x, default):
            if x is None:
                return default
            if isinstance(x, int) and x >= 0:
                return z3.If(ln < x, ln, z3.IntVal(x))
            if isinstance(x, int):
                return z3.If(ln + x < 0, z3.IntVal(0), ln + x)
            raise Unsupported("symbolic slice")
        a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, ln)
        # structural shortcuts keep the terms small
        kids = t.children() if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT else [t]
        unit = [z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_UNIT for x in kids]
        if k.stop is None and isinstance(k.start, int) and 0 <= k.start <= len(kids) and all(unit[:k.start]):
            rest = kids[k.start:]
            return StrSeq(z3.Empty(SeqS) if not rest else rest[0] if len(rest) == 1 else z3.Concat(rest))
        if k.start is None and isinstance(k.stop, int) and k.stop < 0 and -k.stop <= len(kids) \
                and all(unit[k.stop:]):
            rest = kids[:k.stop]
            return StrSeq(z3.Empty(SeqS) if not rest else rest[0] if len(rest) == 1 else z3.Concat(rest))
        return StrSeq(z3.simplify(z3.Extract(t, a, z3.If(b > a, b - a, z3.IntVal(0)))))
    raise Unsupported("subscript of a sequence")


def str_slice(it, o, k):
    if isinstance(o, HomV):
        if isinstance(k, slice) and k.step is None and len(o.pre) == (k.start or 0) \
                and k.stop is not None and -k.stop == len(o.post):
            return HomV(o.base, o.table)
        raise Unsupported("slice of a composed text")
    if isinstance(o, (FmtStr, JoinV)):
        return FmtStr()
    t = term(o)
    ln = z3.Length(t)
    if isinstance(k, int):
        ok = ln > k if k >= 0 else ln >= -k
        if not it.ctx.branch(ok):
            it.throw("IndexError", "string index out of range")
        return z3.simplify(z3.SubString(t, k if k >= 0 else ln + k, 1))
    if isinstance(k, slice) and k.step is None:
        def pos(x, default):
            if x is None:
                return default
            if isinstance(x, int) and x >= 0:
                return z3.If(ln < x, ln, z3.IntVal(x))
            if isinstance(x, int):
                return z3.If(ln + x < 0, z3.IntVal(0), ln + x)
            raise Unsupported("symbolic slice")
        a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, ln)
        r = z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0)))
        r = z3.simplify(r)
        tab = it.ctx.tables.setdefault("slices", {})
        tab[r.sexpr()] = (t, k.start, k.stop)
        return untrm(r)
    raise Unsupported("string slice")


# ---------------------------------------------------------------- attributes

def method(name, fn):
    return Builtin(name, fn)


def attr(it, o, name):
    if isinstance(o, (str,)) or is_str(o):
        if name in STR_METHODS:
            return Builtin(f"str.{name}", lambda i, a, k: STR_METHODS[name](i, o, a, k))
        if isinstance(o, str) and hasattr(o, name):
            return Builtin(f"str.{name}", lambda i, a, k: conc_str(i, o, name, a, k))
        return MISSING
    if isinstance(o, (bytes, BytesV)):
        return bytes_attr(it, o, name)
    ext = it.externals
    if isinstance(o, ext.LinesV):
        return lines_attr(it, o, name)
    if isinstance(o, ext.LoggerV):
        return Builtin(name, lambda i, a, k: None)
    if isinstance(o, ext.DigestV):
        return digest_attr(it, o, name)
    if isinstance(o, ext.FileV):
        return file_attr(it, o, name)
    if isinstance(o, HList):
        f = LIST_METHODS.get(name)
        return MISSING if f is None else Builtin(f"list.{name}", lambda i, a, k: f(i, o, a, k))
    if isinstance(o, HDict):
        f = DICT_METHODS.get(name)
        return MISSING if f is None else Builtin(f"dict.{name}", lambda i, a, k: f(i, o, a, k))
    if isinstance(o, HSet):
        f = SET_METHODS.get(name)
        return MISSING if f is None else Builtin(f"set.{name}", lambda i, a, k: f(i, o, a, k))
    if isinstance(o, tuple):
        if name == "index":
            return Builtin("tuple.index", lambda i, a, k: loops.list_index(i, HList([Lit(x) for x in o]), a[0]))
        if name == "count":
            return Builtin("tuple.count", lambda i, a, k: list_count(i, HList([Lit(x) for x in o]), a, k))
        return MISSING
    if isinstance(o, PathV):
        return it.externals.metadatapath_attr(o, name)
    if isinstance(o, UuidV):
        if name in ("hex", "int", "bytes", "urn"):
            return it.ctx.fresh("uuid_" + name, S)
        return MISSING
    if isinstance(o, GenV):
        if name == "close":
            return Builtin("close", lambda i, a, k: None)
        return MISSING
    if isinstance(o, (FuncV, Builtin, BoundV)):
        if name == "__name__":
            return getattr(o, "name", "function")
        return MISSING
    if is_term(o):
        if o.sort() == Val:
            return it.externals.val_attr(o, name)
        if name in ("is_integer",):
            return MISSING
        return MISSING
    if isinstance(o, Obj):
        v = it.ctx.get(o, name)
        return v
    return MISSING


def obj_attr(it, o, name):
    """builtin attributes of instances of interpreted classes"""
    d = o.slots.get("$dict")
    if d is not None:
        f = DICT_METHODS.get(name)
        if f is not None:
            return Builtin(f"dict.{name}", lambda i, a, k: f(i, it.ctx.get(o, "$dict"), a, k))
    h = o.cls.meta.get("getattr_hook") or next(
        (c.meta["getattr_hook"] for c in o.cls.mro if "getattr_hook" in c.meta), None)
    if h is not None:
        return h(it, o, name)
    if name == "__str__" or name == "__repr__":
        return Builtin(name, lambda i, a, k: FmtStr())
    return MISSING


def super_builtin(it, s, name):
    if name == "__init__":
        return Builtin("object.__init__", lambda i, a, k: None)
    if name == "__new__":
        return Builtin("object.__new__", lambda i, a, k: Obj(a[0]))
    if name == "__eq__":
        return Builtin("object.__eq__", lambda i, a, k: identical(i, s.self_, a[0]))
    if name in ("__str__", "__repr__"):
        return Builtin(name, lambda i, a, k: FmtStr())
    if name in ("__enter__", "__exit__", "__init_subclass__"):
        return Builtin(name, lambda i, a, k: None)
    d = s.self_.slots.get("$dict") if isinstance(s.self_, Obj) else None
    if d is not None and name in DICT_METHODS:
        return Builtin(name, lambda i, a, k: DICT_METHODS[name](i, d, a, k))
    return MISSING


# ---- strings

def conc_str(it, o, name, a, k):
    if all(isinstance(x, CONC + (tuple,)) for x in a):
        try:
            r = getattr(o, name)(*a, **k)
        except (UnicodeError, ValueError) as e:
            it.throw(type(e).__name__, str(e))
        if isinstance(r, list):
            return HList([Lit(x) for x in r])
        return r
    raise Unsupported(f"str.{name} with symbolic arguments")


def concrete_args(o, a):
    return isinstance(o, str) and all(isinstance(x, CONC) or (
        isinstance(x, tuple) and all(isinstance(y, CONC) for y in x)) for x in a)


def s_startswith(it, o, a, k):
    if concrete_args(o, a):
        return o.startswith(*a)
    p = a[0]
    if isinstance(p, tuple):
        return disj([s_startswith(it, o, [x], {}) for x in p])
    if isinstance(o, HomV):
        if isinstance(p, str) and o.pre.startswith(p):
            return True
        raise Unsupported("startswith")
    if isinstance(o, FmtStr):
        return it.ctx.fresh("startswith", B)
    h = it.ctx.tables.get("startswith")
    if h is not None:
        r = h(it, o, p)
        if r is not None:
            return r
    if is_term(o) and isinstance(p, str) and z3.is_app(o) \
            and o.decl().name() in it.ctx.tables.get("hashdecl", ()) \
            and any(c not in "0123456789abcdef" for c in p):
        return False
    return z3.simplify(z3.PrefixOf(term(p), term(o)))


def s_endswith(it, o, a, k):
    if concrete_args(o, a):
        return o.endswith(*a)
    p = a[0]
    if isinstance(p, tuple):
        return disj([s_endswith(it, o, [x], {}) for x in p])
    if isinstance(o, HomV) and isinstance(p, str) and o.post.endswith(p):
        return True
    return z3.simplify(z3.SuffixOf(term(p), term(o)))


def s_find(it, o, a, k):
    if concrete_args(o, a):
        return o.find(*a)
    if len(a) > 1 or isinstance(o, (HomV, JoinV, FmtStr)):
        raise Unsupported("find")
    return z3.IndexOf(term(o), term(a[0]), 0)


def s_replace(it, o, a, k):
    if concrete_args(o, a):
        return o.replace(*a)
    old, new = a[0], a[1]
    if isinstance(o, FmtStr):
        return FmtStr()
    if not (isinstance(old, str) and isinstance(new, str) and len(old) == 1):
        raise Unsupported("replace with symbolic or longer patterns")
    if isinstance(o, HomV):
        if o.pre or o.post:
            raise Unsupported("replace on a composed text")
        table = {c: t.replace(old, new) for c, t in o.table.items()}
        if old not in o.table:
            table[old] = new
        return HomV(o.base, table)
    return HomV(o, {old: new})


def s_join(it, o, a, k):
    seq = a[0]
    if isinstance(seq, StrSeq):
        if o == "/":
            return it.externals.joined_path(seq)
        return FmtStr()
    if isinstance(seq, tuple):
        vals = list(seq)
    else:
        l = seq
        if not isinstance(l, HList):
            l = HList()
            list_extend(it, l, seq)
        segs = it.ctx.get(l, "segs")
        vals = [s.v for s in segs if isinstance(s, Lit)]
        if len(vals) != len(segs):
            return JoinV(o, segs)
    parts = []
    for n, v in enumerate(vals):
        if not is_str(v):
            if isinstance(v, FmtStr):
                return FmtStr()
            it.throw("TypeError", "sequence item: expected str")
        if n:
            parts.append(o)
        parts.append(v)
    if o == "/" and not all(isinstance(p, str) for p in parts):
        return it.externals.joined_path(StrSeq(seqterm(tuple(vals))))
    return concat(it, parts)


def decompose(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out.extend(decompose(c))
        return out
    return [t]


def s_split(it, o, a, k):
    if concrete_args(o, a):
        return HList([Lit(x) for x in o.split(*a, **k)])
    most = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    if not a or not isinstance(a[0], str) or set(k) - {"maxsplit"} or len(a) > 2 or not isinstance(most, int):
        if isinstance(o, FmtStr):
            return HList([Lit(FmtStr())])
        raise Unsupported("split")
    sep = a[0]
    if isinstance(o, (FmtStr, JoinV, HomV)):
        raise Unsupported("split of a composed text")
    pieces = [[]]
    parts = decompose(term(o))
    if len(sep) != 1 and len(parts) > 1:
        raise Unsupported("split at a separator of several characters")
    for part in parts:
        p = untrm(part)
        if 0 <= most < len(pieces):
            pieces[-1].append(p)
        elif isinstance(p, str):
            bits = p.split(sep, most - len(pieces) + 1 if most >= 0 else -1)
            pieces[-1].append(bits[0])
            for b in bits[1:]:
                pieces.append([b])
        else:
            known = it.ctx.tables.setdefault("nosep", {}).get(p.sexpr(), "")
            d = p.decl().name() if z3.is_app(p) else ""
            known += it.ctx.tables.setdefault("nosep_decl", {}).get(d, "")
            if sep not in known and not it.ctx.entails(z3.Not(z3.Contains(p, term(sep)))):
                raise Unsupported(f"split({sep!r}) of {p}")
            pieces[-1].append(p)
    return HList([Lit(concat(it, p)) for p in pieces])


def s_strip(it, o, a, k):
    if concrete_args(o, a):
        return o.strip(*a)
    h = it.ctx.tables.get("strip")
    if h is not None:
        r = h(it, o, a)
        if r is not None:
            return r
    if not a and is_term(o):
        parts = [untrm(x) for x in decompose(o)]

        def solid(x):
            """an identifier: not empty and without white space"""
            return is_term(x) and z3.is_app(x) and not set(" \t\n") - set(
                it.ctx.tables.get("nosep_decl", {}).get(x.decl().name(), ""))
        head, tail = parts[0], parts[-1]
        if isinstance(head, str) and head.strip() == "" and len(parts) > 1:
            return s_strip(it, concat(it, parts[1:]), a, k)
        if isinstance(tail, str) and tail.strip() == "" and len(parts) > 1:
            return s_strip(it, concat(it, parts[:-1]), a, k)
        if all(solid(x) or isinstance(x, str) and x.strip() for x in (head, tail)):
            if isinstance(head, str):
                parts[0] = head.lstrip() if len(parts) > 1 else head.strip()
            if isinstance(tail, str) and len(parts) > 1:
                parts[-1] = tail.rstrip()
            return concat(it, parts)
    f = z3.Function("strip" + ("_" + a[0] if a else ""), S, S)
    r = f(term(o))
    it.ctx.fact(f(r) == r)
    return r


def s_encode(it, o, a, k):
    if isinstance(o, str):
        try:
            return o.encode(*a)
        except UnicodeError:
            it.throw("UnicodeEncodeError", "encode")
    if isinstance(o, FmtStr):
        return BytesV(it.ctx.fresh("bytes", S))
    return BytesV(o)


def s_splitlines(it, o, a, k):
    if isinstance(o, str):
        return HList([Lit(x) for x in o.splitlines(*a)])
    if isinstance(o, FmtStr):
        return HList([Lit(FmtStr())])
    return it.externals.splitlines(o)


def s_format(it, o, a, k):
    import string
    if not isinstance(o, str):
        return FmtStr()
    parts, auto = [], 0
    for text, field, spec, conversion in string.Formatter().parse(o):
        parts.append(text)
        if field is None:
            continue
        if spec or conversion not in (None, "s"):
            parts.append(None)
            continue
        if field == "":
            field, auto = str(auto), auto + 1
        if field.isdigit():
            if int(field) >= len(a):
                it.throw("IndexError", "Replacement index out of range")
            parts.append(format_value(it, a[int(field)]))
        elif field in k:
            parts.append(format_value(it, k[field]))
        elif field.isidentifier():
            it.throw("KeyError", field)
        else:
            parts.append(None)
    return concat(it, parts)


def percent_format(it, o, v):
    """text % value: only %s, %d, %r and %%"""
    vals = list(v) if isinstance(v, tuple) else [v]
    parts = []
    for n, x in enumerate(re.split("(%.)", o, flags=re.S)):
        if n % 2 == 0:
            parts.append(x)
        elif x == "%%":
            parts.append("%")
        elif x in ("%s", "%d", "%r"):
            if not vals:
                it.throw("TypeError", "not enough arguments for format string")
            y = vals.pop(0)
            if x == "%d" and (isinstance(y, bool) or not (isinstance(y, int) or is_term(y) and y.sort() == I)):
                return FmtStr()
            parts.append(None if x == "%r" else format_value(it, y))
        else:
            return FmtStr()
    if vals:
        it.throw("TypeError", "not all arguments converted during string formatting")
    return concat(it, parts)


def s_upper(name):
    def f(it, o, a, k):
        if concrete_args(o, a):
            return getattr(o, name)(*a)
        return z3.Function("str_" + name, S, S)(term(o))
    return f


def s_isascii(name):
    def f(it, o, a, k):
        if concrete_args(o, a):
            return getattr(o, name)(*a)
        return z3.Function("str_" + name, S, B)(term(o))
    return f


def s_partition(it, o, a, k):
    if concrete_args(o, a):
        return o.partition(*a)
    l = s_split(it, o, a, {})
    vals = [s.v for s in it.ctx.get(l, "segs")]
    if len(vals) == 1:
        return (vals[0], "", "")
    rest = [vals[1]]
    for v in vals[2:]:
        rest += [a[0], v]
    return (vals[0], a[0], concat(it, rest))


STR_METHODS = {
    "startswith": s_startswith, "endswith": s_endswith, "find": s_find,
    "replace": s_replace, "join": s_join, "split": s_split, "strip": s_strip,
    "encode": s_encode, "splitlines": s_splitlines, "format": s_format,
    "lower": s_upper("lower"), "upper": s_upper("upper"), "lstrip": s_upper("lstrip"),
    "rstrip": s_upper("rstrip"), "isascii": s_isascii("isascii"),
    "isprintable": s_isascii("isprintable"), "partition": s_partition,
    "removeprefix": s_upper("removeprefix"),
}


def lines_attr(it, o, name):
    if name == "splitlines":
        return Builtin(name, lambda i, a, k: HList(o.segs))
    if name in ("strip", "rstrip"):
        if len(o.segs) == 1 and isinstance(o.segs[0], Lit):
            return Builtin(name, lambda i, a, k: o.segs[0].v)
        return Builtin(name, lambda i, a, k: FmtStr())
    if name == "split":
        def split(i, a, k):
            if a and a[0] == "\n":
                return HList(tuple(o.segs) + (Lit(""),))
            if not a and len(o.segs) == 1 and isinstance(o.segs[0], Lit):
                return HList(o.segs)
            raise Unsupported("split of lines")
        return Builtin(name, split)
    if name == "encode":
        return Builtin(name, lambda i, a, k: BytesV(o))
    raise Unsupported(f"{name} of command output")


def digest_attr(it, o, name):
    if name == "hexdigest":
        return Builtin(name, lambda i, a, k: it.externals.digest(o.algo, o.data))
    if name == "update":
        def update(i, a, k):
            if i.ctx.gen:
                raise Unsupported("incremental digest in a generic iteration")
            o.data = bytes_concat(i, o.data, a[0])
        return Builtin(name, update)
    return MISSING


def file_attr(it, o, name):
    if name == "write":
        return Builtin(name, lambda i, a, k: it.externals.write_file(o, a[0]))
    if name in ("close", "flush"):
        return Builtin(name, lambda i, a, k: None)
    raise Unsupported(f"file.{name}")


def is_raw(it, t):
    """arbitrary bytes: possibly not the encoding of any text"""
    return is_term(t) and t.sexpr() in it.ctx.tables.get("raw", ())


def bytes_attr(it, o, name):
    if name == "decode":
        def dec(i, a, k):
            if isinstance(o, bytes):
                try:
                    return o.decode(*a)
                except UnicodeError:
                    i.throw("UnicodeDecodeError", "decode")
            if is_raw(i, o.text) and not i.ctx.branch(i.ctx.fresh("is_utf8", B)):
                i.throw("UnicodeDecodeError", "decode")
            return o.text
        return Builtin("bytes.decode", dec)
    if isinstance(o, bytes) and hasattr(o, name):
        return Builtin(f"bytes.{name}", lambda i, a, k: getattr(o, name)(*a, **k))
    if name == "strip":
        return Builtin("bytes.strip", lambda i, a, k: BytesV(s_strip(i, o.text, [], {})))
    if name == "splitlines":
        def sl(i, a, k):
            raise Unsupported("bytes.splitlines")
        return Builtin("bytes.splitlines", sl)
    return MISSING


# ---- lists, dicts, sets

def l_append(it, o, a, k):
    list_append(it, o, a[0])


def l_extend(it, o, a, k):
    list_extend(it, o, a[0])


def l_insert(it, o, a, k):
    segs = it.ctx.get(o, "segs")
    if a[0] == 0:
        it.ctx.put(o, "segs", (Lit(a[1]),) + segs)
        return
    vals = to_pylist(it, o)
    vals.insert(a[0], a[1])
    it.ctx.put(o, "segs", tuple(Lit(v) for v in vals))


def l_index(it, o, a, k):
    return loops.list_index(it, o, a[0])


def list_count(it, o, a, k):
    if any(isinstance(s, Comp) for s in it.ctx.get(o, "segs")):
        return loops.count(it, o, a[0])
    vals = to_pylist(it, o)
    n = 0
    for v in vals:
        f = eq(it, v, a[0])
        if isinstance(f, bool):
            n = n + (1 if f else 0)
        else:
            n = n + (1 if it.ctx.branch(f) else 0)
    return n


def l_pop(it, o, a, k):
    vals = to_pylist(it, o)
    if not vals:
        it.throw("IndexError", "pop from empty list")
    r = vals.pop(*a)
    it.ctx.put(o, "segs", tuple(Lit(v) for v in vals))
    return r


def l_clear(it, o, a, k):
    it.ctx.put(o, "segs", ())


def l_remove(it, o, a, k):
    vals = to_pylist(it, o)
    for n, v in enumerate(vals):
        if it.ctx.branch(eq(it, v, a[0])):
            del vals[n]
            it.ctx.put(o, "segs", tuple(Lit(v) for v in vals))
            return
    it.throw("ValueError", "list.remove(x): x not in list")


def l_copy(it, o, a, k):
    return HList(it.ctx.get(o, "segs"))


def l_sort(it, o, a, k):
    it.ctx.put(o, "segs", tuple(Lit(v) for v in to_pylist(it, sorted_(it, [o], k))))


def l_reverse(it, o, a, k):
    it.ctx.put(o, "segs", tuple(Lit(v) for v in reversed(to_pylist(it, o))))


LIST_METHODS = {
    "append": l_append, "extend": l_extend, "insert": l_insert, "index": l_index,
    "count": list_count, "pop": l_pop, "clear": l_clear, "remove": l_remove, "copy": l_copy,
    "sort": l_sort, "reverse": l_reverse,
}


def d_get(it, o, a, k):
    found, v = loops.dict_get(it, o, a[0])
    if found:
        return v
    return a[1] if len(a) > 1 else k.get("default")


def d_setdefault(it, o, a, k):
    found, v = loops.dict_get(it, o, a[0])
    if found:
        return v
    v = a[1] if len(a) > 1 else None
    dict_set(it, o, a[0], v)
    return v


def d_pop(it, o, a, k):
    found, v = loops.dict_get(it, o, a[0])
    if found:
        loops.dict_del(it, o, a[0])
        return v
    if len(a) > 1:
        return a[1]
    it.throw("KeyError", a[0])


def d_update(it, o, a, k):
    for x in a:
        update(it, o, x)
    for n, v in k.items():
        dict_set(it, o, n, v)


DICT_METHODS = {
    "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "update": d_update,
    "keys": lambda it, o, a, k: SegView(o, "keys"),
    "values": lambda it, o, a, k: SegView(o, "values"),
    "items": lambda it, o, a, k: SegView(o, "items"),
    "copy": lambda it, o, a, k: HDict(it.ctx.get(o, "segs"), o.cls),
    "clear": l_clear,
    "__contains__": lambda it, o, a, k: loops.dict_has(it, o, a[0]),
    "__getitem__": lambda it, o, a, k: getitem(it, o, a[0]),
    "__setitem__": lambda it, o, a, k: dict_set(it, o, a[0], a[1]),
}


def st_discard(it, o, a, k):
    loops.set_discard(it, o, a[0])


def st_remove(it, o, a, k):
    if not it.ctx.branch(boolterm(loops.set_has(it, o, a[0]))):
        it.throw("KeyError", a[0])
    loops.set_discard(it, o, a[0])


def _setop(op):
    def f(it, o, a, k):
        r = o
        for x in a:
            r = loops.set_op(it, op, to_set(it, r), to_set(it, x))
        if not a:
            r = HSet(it.ctx.get(o, "segs"))
        return r
    return f


SET_METHODS = {
    "add": lambda it, o, a, k: set_add(it, o, a[0]),
    "update": lambda it, o, a, k: [update(it, o, x) for x in a] and None,
    "discard": st_discard, "remove": st_remove, "clear": l_clear,
    "copy": lambda it, o, a, k: HSet(it.ctx.get(o, "segs")),
    "union": _setop("|"), "intersection": _setop("&"), "difference": _setop("-"),
    "issubset": lambda it, o, a, k: loops.subset(it, o, to_set(it, a[0])),
    "issuperset": lambda it, o, a, k: loops.subset(it, to_set(it, a[0]), o),
    "isdisjoint": lambda it, o, a, k: neg(loops.nonempty(it, loops.set_op(it, "&", o, to_set(it, a[0])))),
}


# ---------------------------------------------------------------- functions

def b_len(it, a, k):
    v = a[0]
    if isinstance(v, (tuple, str, bytes)):
        return len(v)
    if isinstance(v, BytesV):
        return it.ctx.fresh("blen", I) if v.text is None else z3.Function("utf8len", S, I)(term(v.text))
    if isinstance(v, (StrSeq, PathV)):
        return z3.Length(v.term)
    if is_term(v) and v.sort() == S:
        n = known_len(it, v)
        return z3.Length(v) if n is None else n
    if isinstance(v, (HomV, FmtStr, JoinV)):
        n = it.ctx.fresh("len", I)
        it.ctx.fact(n >= 0)
        return n
    if isinstance(v, (HList, HDict, HSet)):
        return loops.length(it, v)
    if isinstance(v, SegView):
        return loops.length(it, v.d)
    if isinstance(v, Obj) and isinstance(v.cls, ClsV):
        f = it.class_attr(v.cls, "__len__")
        if f is not MISSING:
            return it.call(it.bind(f, v), [], {})
        if native(it, v, "$dict"):
            return loops.length(it, it.ctx.get(v, "$dict"))
    it.throw("TypeError", "object has no len()")


def b_all(it, a, k):
    class Stop(Sig):
        pass

    def body(v):
        if not it.truth(v):
            raise Stop()
    try:
        loops.foreach(it, a[0], body)
    except Stop:
        return False
    return True


def b_any(it, a, k):
    class Stop(Sig):
        pass

    def body(v):
        if it.truth(v):
            raise Stop()
    try:
        loops.foreach(it, a[0], body)
    except Stop:
        return True
    return False


def b_map(it, a, k):
    if len(a) != 2:
        raise Unsupported("map with several iterables")
    fn, src = a

    def run(on_yield):
        loops.foreach(it, src, lambda v: on_yield(it.call(fn, [v], {})))
    return GenV(run, "map")


def b_filter(it, a, k):
    fn, src = a

    def run(on_yield):
        def body(v):
            if it.truth(v if fn is None else it.call(fn, [v], {})):
                on_yield(v)
        loops.foreach(it, src, body)
    return GenV(run, "filter")


def b_zip(it, a, k):
    def run(on_yield):
        if loops.foreach_zip(it, a, on_yield):
            return
        lists = [to_pylist(it, x) for x in a]
        for t in zip(*lists):
            on_yield(tuple(t))
    return GenV(run, "zip")


def b_enumerate(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    return GenV(lambda on_yield: loops.foreach_enum(it, a[0], start, on_yield), "enumerate")


def b_str(it, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, PathV):
        return it.externals.metadatapath_str(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClsV):
        if v.cls is it.externals.path_class:
            return it.externals.path_str(v)
        f = it.class_attr(v.cls, "__str__")
        if f is not MISSING:
            return it.call(it.bind(f, v), [], {})
        return FmtStr()
    if is_str(v):
        return v
    if is_term(v) and v.sort() == I:
        r = z3.Function("str_of_int", I, S)(v)
        it.ctx.fact(z3.Function("int_of_str", S, I)(r) == v)
        it.ctx.tables.setdefault("inv", {})["str_of_int"] = z3.Function("int_of_str", S, I)
        it.ctx.tables.setdefault("nosep_decl", {})["str_of_int"] = " \t\n\"/\\\0"
        return r
    if is_term(v) and v.sort() == Val:
        return z3.Function("str_of_val", Val, S)(v)
    r = format_value(it, v)
    return FmtStr() if r is None else r


def b_repr(it, a, k):
    if isinstance(a[0], (int, type(None))):
        return repr(a[0])
    return FmtStr()


def b_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, float, str)):
        try:
            return int(v, *a[1:])
        except ValueError:
            it.throw("ValueError", "invalid literal for int()")
    if is_term(v) and v.sort() == I:
        return v
    if is_term(v) and v.sort() == S:
        if z3.is_app(v) and v.decl().name() == "str_of_int":
            return v.arg(0)
        return z3.Function("int_of_str", S, I)(v)
    if is_term(v):
        return it.ctx.fresh("int", I)
    raise Unsupported("int()")


def b_float(it, a, k):
    if a and isinstance(a[0], (int, float)):
        return float(a[0])
    return it.ctx.fresh("float", Val)


def b_list(it, a, k):
    out = HList()
    if a:
        list_extend(it, out, a[0])
    return out


def b_tuple(it, a, k):
    if not a:
        return ()
    if isinstance(a[0], (tuple, StrSeq)):
        return a[0]
    l = b_list(it, a, k)
    segs = it.ctx.get(l, "segs")
    if all(isinstance(s, Lit) for s in segs):
        return tuple(s.v for s in segs)
    return l


def b_set(it, a, k):
    out = HSet()
    if a:
        update(it, out, a[0])
    return out


def b_dict(it, a, k):
    out = HDict()
    for x in a:
        update(it, out, x)
    for n, v in k.items():
        dict_set(it, out, n, v)
    return out


def b_isinstance(it, a, k):
    return isinstance_(it, a[0], a[1])


def b_issubclass(it, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(c in a[0].mro for c in cs)


def b_type(it, a, k):
    t = type_of(it, a[0])
    if t is None:
        raise Unsupported("type of an opaque value")
    return t.meta.get("public_type", t)


def b_getattr(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    return it.getattr(a[0], a[1], a[2] if len(a) > 2 else MISSING)


def b_hasattr(it, a, k):
    return it.find_attr(a[0], a[1]) is not MISSING


def b_setattr(it, a, k):
    it.setattr(a[0], a[1], a[2])


def b_hash(it, a, k):
    v = a[0]
    if isinstance(v, HDict) or isinstance(v, HList) or isinstance(v, HSet):
        it.throw("TypeError", "unhashable")
    return it.ctx.fresh("hash", I)


def b_iter(it, a, k):
    return a[0]


def b_next(it, a, k):
    class Stop(Sig):
        def __init__(self, v):
            self.v = v

    def body(v):
        raise Stop(v)
    if isinstance(a[0], (HList, tuple, HDict, SegView)) and not isinstance(a[0], GenV):
        pass
    try:
        loops.foreach(it, a[0], body)
    except Stop as s:
        return s.v
    if len(a) > 1:
        return a[1]
    it.throw("StopIteration")


def b_range(it, a, k):
    if all(isinstance(x, int) for x in a):
        return tuple(range(*a))
    raise Unsupported("range with symbolic bounds")


def b_sum(it, a, k):
    return loops.sum_(it, a[0], a[1] if len(a) > 1 else 0)


def sorted_(it, a, k):
    vals = to_pylist(it, a[0])
    if len(vals) <= 1:
        return HList([Lit(v) for v in vals])
    key = k.get("key")
    ks = vals if key is None else [it.call(key, [v], {}) for v in vals]
    if all(isinstance(x, (str, int, float)) for x in ks):
        order = sorted(range(len(vals)), key=lambda n: ks[n], reverse=bool(k.get("reverse")))
        return HList([Lit(vals[n]) for n in order])
    # an unknown permutation
    if len(vals) > 4:
        raise Unsupported("sorted of a long symbolic list")
    rest = list(vals)
    out = []
    while rest:
        n = it.ctx.choose(len(rest), "sorted")
        out.append(rest.pop(n))
    return HList([Lit(v) for v in out])


def b_reversed(it, a, k):
    return HList([Lit(v) for v in reversed(to_pylist(it, a[0]))])


def b_minmax(f):
    def g(it, a, k):
        vals = to_pylist(it, a[0]) if len(a) == 1 else list(a)
        if all(isinstance(v, (int, float)) for v in vals):
            return f(vals)
        raise Unsupported("min/max")
    return g


def b_bool(it, a, k):
    return truthy(it, a[0]) if a else False


def b_callable(it, a, k):
    return isinstance(a[0], (FuncV, BoundV, Builtin, ClsV))


def native(it, o, slot):
    """does the object extend a built-in type with this value"""
    return slot in o.slots or "fam" in o.meta and it.ctx.peek(o, slot) is not MISSING


def b_bytearray(it, a, k):
    return a[0] if a else b""


def b_open(it, a, k):
    mode = a[1] if len(a) > 1 else k.get("mode", "r")
    return it.externals.open_file(it.externals.path_text(a[0]), mode, a[2:], k)


def b_print(it, a, k):
    return None


def b_property(it, a, k):
    return PropV(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


def b_vars(it, a, k):
    raise Unsupported("vars")


def b_id(it, a, k):
    return it.ctx.fresh("id", I)


def b_chr(it, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    raise Unsupported("chr")


def instantiate_builtin(it, cls, args, kwargs):
    f = cls.meta.get("construct")
    if f is not None:
        return f(it, list(args), dict(kwargs))
    if cls.meta.get("exception") or any(c.meta.get("exception") for c in cls.mro):
        if it.class_attr(cls, "__init__") is MISSING:
            return Obj(cls, {"args": tuple(args), **kwargs})
        return MISSING
    if cls.meta.get("enum") or any(c.meta.get("enum") for c in cls.mro):
        for m in cls.meta.get("members", []):
            if it.ctx.branch(boolterm(eq(it, it.ctx.get(m, "value"), args[0]))):
                return m
        it.throw("ValueError", "not a member")
    for c in cls.mro:
        if c.name == "dict" and c.builtin:
            o = Obj(cls)
            if args and is_term(args[0]):
                it.ctx.put(o, "$val", args[0])
            elif args and isinstance(args[0], Obj) and native(it, args[0], "$val"):
                it.ctx.put(o, "$val", it.ctx.get(args[0], "$val"))
            else:
                it.ctx.put(o, "$dict", b_dict(it, args, kwargs))
            return o
    return MISSING


def dict_subclass_eq(it, a, k):
    x, y = a

    def content(o):
        if isinstance(o, Obj) and native(it, o, "$val"):
            return it.ctx.get(o, "$val")
        if isinstance(o, Obj) and native(it, o, "$dict"):
            return it.ctx.get(o, "$dict")
        return o
    return eq(it, content(x), content(y))


EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "NameError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "NotADirectoryError": "OSError", "IsADirectoryError": "OSError",
    "StopIteration": "Exception", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "ZeroDivisionError": "ArithmeticError", "EOFError": "Exception", "Warning": "Exception",
    "UserWarning": "Warning", "DeprecationWarning": "Warning", "TimeoutError": "OSError",
    "ConnectionError": "OSError", "BrokenPipeError": "ConnectionError", "MemoryError": "Exception",
}


def install(it):
    b = it.builtins
    obj = ClsV("object", [], {}, builtin="object")
    b["object"] = obj
    for n in ("type", "NoneType", "function", "generator"):
        b[n] = ClsV(n, [obj], {}, builtin=n)
    cons = {"str": b_str, "int": b_int, "float": b_float, "list": b_list, "tuple": b_tuple,
            "set": b_set, "dict": b_dict, "bool": b_bool, "bytes": b_bytearray,
            "bytearray": b_bytearray, "frozenset": b_set}
    for n, f in cons.items():
        base = b["int"] if n == "bool" else obj
        c = ClsV(n, [base], {}, builtin=n)
        c.meta["construct"] = f
        b[n] = c
    b["dict"].slots["__eq__"] = Builtin("dict.__eq__", dict_subclass_eq)
    b["dict"].slots["__eq__"].method = True
    b["type"].meta["construct"] = b_type
    fromkeys = Builtin("fromkeys", lambda i, a, k: _fromkeys(i, a))
    b["dict"].slots["fromkeys"] = fromkeys
    for n, base in EXC.items():
        c = ClsV(n, [b[base] if base else obj], {}, builtin=n)
        c.meta["exception"] = True
        b[n] = c
    b["IOError"] = b["OSError"]
    b["EnvironmentError"] = b["OSError"]
    fns = {
        "len": b_len, "all": b_all, "any": b_any, "map": b_map, "filter": b_filter, "zip": b_zip,
        "enumerate": b_enumerate, "isinstance": b_isinstance, "issubclass": b_issubclass,
        "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr, "hash": b_hash, "iter": b_iter,
        "next": b_next, "range": b_range, "sum": b_sum, "sorted": sorted_, "reversed": b_reversed,
        "min": b_minmax(min), "max": b_minmax(max), "callable": b_callable, "print": b_print,
        "property": b_property, "open": b_open, "repr": b_repr, "id": b_id, "vars": b_vars, "chr": b_chr,
    }
    for n, f in fns.items():
        b[n] = Builtin(n, f)
    b["staticmethod"] = Builtin("staticmethod", lambda i, a, k: StaticV(a[0]))
    b["classmethod"] = Builtin("classmethod", lambda i, a, k: ClassMethodV(a[0]))
    b["NotImplemented"] = OpaqueV("NotImplemented")
    b["Ellipsis"] = OpaqueV("Ellipsis")
    b["__debug__"] = True
    b["__file__"] = "file"
    b["super"] = Builtin("super", lambda i, a, k: SuperV(a[0], a[1]))


def _fromkeys(it, a):
    out = HDict()
    loops.foreach(it, a[0], lambda x: dict_set(it, out, x, a[1] if len(a) > 1 else None))
    return out
