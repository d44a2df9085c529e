"""C16 Metadata paths are canonical and relative: the class invariant and the
postconditions of dataladmetadatamodel.metadatapath.MetadataPath"""
import z3
from pyvc.core import SeqS, StrSeq
from pyvc.externals import parsepath

P = "metadatapath.MetadataPath"


def inv(k, p, seq, label):
    k.prove(f"{label}/relative", k.eq(p.slots["$abs"], False))
    k.prove(f"{label}/elements", p.slots["$seq"] == seq)


def from_text(k):
    """MetadataPath(text): relative, with the elements of the text without its anchor"""
    s = k.str("text")
    p = k.new(P, s)
    k.prove("from_text/relative", k.eq(k.m(p, "is_absolute"), False))
    k.prove("from_text/elements", p.slots["$seq"] == parsepath(s))
    k.prove("from_text/length", k.eq(k.call(k.it.builtins["len"], p), z3.Length(parsepath(s))))


def arbitrary(k, name):
    p = k.new(P, k.str(name))
    return p


def root(k):
    for a in ((), ("",), (".",), ("/",)):
        p = k.new(P, *a)
        k.prove(f"root{a}/len", k.eq(k.call(k.it.builtins["len"], p), 0))
        k.prove(f"root{a}/str", k.eq(k.call(k.it.builtins["str"], p), ""))
    k.prove("root/eq", k.eq(k.new(P, ""), k.new(P, ".")))
    k.prove("root/eq2", k.eq(k.new(P), k.new(P, "")))


def text_round_trip(k):
    """MetadataPath(str(p)) == p"""
    p = arbitrary(k, "text")
    q = k.new(P, k.call(k.it.builtins["str"], p))
    k.prove("round_trip/equal", k.eq(p, q))
    r = k.new(P, p)
    k.prove("copy/equal", k.eq(p, r))


def join(k):
    """joining keeps the result relative and concatenates the elements"""
    p, q = arbitrary(k, "text1"), arbitrary(k, "text2")
    k.cover("join")
    inv(k, k.it.binop(__import__("ast").Div(), p, q), z3.Concat(p.slots["$seq"], q.slots["$seq"]), "truediv")
    inv(k, k.new(P, p, q), z3.Concat(p.slots["$seq"], q.slots["$seq"]), "constructor")
    inv(k, k.m(p, "joinpath", q), z3.Concat(p.slots["$seq"], q.slots["$seq"]), "joinpath")


def join_text(k):
    """joining with an arbitrary text, which may be absolute, keeps the result relative"""
    p = arbitrary(k, "text1")
    s = k.str("text2")
    r = k.it.binop(__import__("ast").Div(), p, s)
    k.prove("join_text/relative", k.eq(r.slots["$abs"], False))
    r = k.it.binop(__import__("ast").Div(), s, p)
    k.prove("rjoin_text/relative", k.eq(r.slots["$abs"], False))


def elements(k):
    """the elements of a path, joined by the constructor of a path or by '/', are the path"""
    p = arbitrary(k, "text")
    parts = k.get(p, "parts")
    k.prove("elements/parts", parts.term == p.slots["$seq"])
    k.prove("elements/len", k.eq(k.call(k.it.builtins["len"], p), z3.Length(parts.term)))
    q = k.new(P, k.m("/", "join", parts))
    k.prove("elements/joined", k.eq(p, q))


HARNESSES = [from_text, root, text_round_trip, join, join_text, elements]
