"""C03 Purging never discards unsaved changes"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, HDict, Obj, S

from . import c01
from .common import MO, MP, why
from .state import CLASSES, Content, per_class


class Purge:
    """contract of is_saved_on and purge: an object that is saved on a realm has only sub-objects that
    are saved there (C02); an object can be purged if it is not loaded or saved anywhere"""

    def __init__(self, k, X):
        self.k = k
        self.X = X
        self.saved = z3.Function(f"saved@{k.uid()}", S, B)
        self.purgeable = {}         # family -> predicate
        self.asked = []
        self.purged = []
        self.refused = []
        X.E.call = self.call
        X.E.own[id(X.o)] = {"purge": "body"}

    def can(self, o):
        fam = o.meta.get("fam")
        if fam is None:
            f, t = self.purgeable.setdefault(id(o), z3.Bool(f"purgeable@{self.k.uid()}")), ()
        else:
            f = self.purgeable.setdefault(id(fam), z3.Function(f"purgeable@{self.k.uid()}", *[z3.IntSort()] * fam.arity, B))
            t = o.meta["idx"]
            f = f(*t)
        return f

    def call(self, m, it, s, cls=MO):
        o = s["self"]
        k = self.k
        if o is self.X.o:
            if m == "is_saved_on":
                d = bi.term(s["destination"])
                k.ctx.fact(z3.Implies(self.saved(d), self.X.realms.has(d)))
                self.asked.append(d)
                return self.saved(d)
            return it.call_body(it.class_attr(it.lookup_class(MO), m), [o], {})
        if m == "purge":
            c = self.can(o)
            # the object is saved somewhere, so this part is, too
            for d in self.asked:
                k.ctx.fact(z3.Implies(self.saved(d), c))
            if not k.branch(c):
                self.refused.append(o)
                it.throw("ValueError", "unsaved object")
            self.purged.append(o)
            return None
        raise NotImplementedError(m)


def _purge(k, cls):
    """purging succeeds if and only if the object is saved somewhere, otherwise nothing changes; the parts
    are purged only if all of them can be purged"""
    X = Content(k, cls)
    P = Purge(k, X)
    X.remember()
    a = k.attempt(lambda: k.m(X.o, "purge"))
    o = X.o
    s = k.ctx.get(o, "saved_on")
    k.prove("purge/saved-state-unchanged", s is X.realms.set and k.ctx.peek(s, "segs") == X.segs[0])
    if not X.loaded:
        k.prove("purge/not-loaded", a.ok and not P.purged and k.ctx.get(o, "mapped") is False)
        return
    if a.ok:
        k.cover("purge/purged")
        i = k.ctx.fresh("where", S)
        k.prove("purge/purged", k.ctx.get(o, "mapped") is False)
        k.prove("purge/was-saved", z3.Or(*[P.saved(d) for d in P.asked]) if P.asked else False)
    else:
        k.cover("purge/refused")
        k.prove("purge/refused-is-ValueError", k.is_exc(a.exc, "ValueError"), why(k, a))
        k.prove("purge/no-part-is-purged", not P.purged)
        k.prove("purge/no-part-refuses", not P.refused)
        k.prove("purge/still-loaded", k.ctx.get(o, "mapped") is True)
        X.unchanged("purge/refused")
        i = k.ctx.skolem(X.realms.src, "r")
        k.prove("purge/not-saved-anywhere", z3.Not(P.saved(X.realms.realm(i))))


def reload(fn):
    """an object that was written, purged and read again has the same content"""
    def h(k):
        k.reload = True
        fn(k)
    h.__name__ = f"reload_{fn.__name__}"
    h.__doc__ = reload.__doc__
    globals()[h.__name__] = h
    return h


HARNESSES = per_class(globals(), _purge) + [reload(h) for h in (
    c01.text, c01.metadata, c01.root_record, c01.tree_node, c01.tree_node_text, c01.version_list,
    c01.tree_version_list, c01.uuid_set)]
