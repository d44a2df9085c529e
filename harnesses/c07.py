"""C07 JSON forms are inverse, foreign documents are rejected: contracts of all
pairs of to_json and from_json functions, for arbitrary content"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import Obj

from .common import InstanceSets, Runs, configuration, param, record, why

M = "metadata"
R = "mapper.reference.Reference"
TEXT = ("to_json_str", "from_json_str")
OBJ = ("to_json_obj", "from_json_obj")


def convert(k, label, cls, o, names=None):
    """o -> JSON -> object of the class; as an object or as text"""
    to, back = names or [TEXT, OBJ][k.choose(2)]
    a = k.attempt(lambda: k.m(o, to))
    k.prove(f"{label}/to-json", a.ok, why(k, a))
    if not a.ok:
        return None
    doc = a.value
    if names is None and to == "to_json_obj" and k.bool("stored"):
        doc = k.ext.json_value(k.ext.json_text(doc))
    b = k.attempt(lambda: k.call(k.it.getattr(k.cls(cls), back), doc))
    k.prove(f"{label}/from-json", b.ok, why(k, b))
    return b.value if b.ok else None


# ------------------------------------------------------------------ single values

def extractor_configuration(k):
    o, v, p = configuration(k)
    o2 = convert(k, "configuration", f"{M}.ExtractorConfiguration", o)
    if o2 is not None:
        k.prove("configuration/version", k.eq(k.get(o2, "version"), v))
        k.prove("configuration/parameter", k.eq(param(k, o2), p))
        k.prove("configuration/equal", k.eq(o2, o))


def metadata_instance(k):
    o, a = record(k)
    o2 = convert(k, "record", f"{M}.MetadataInstance", o)
    if o2 is None:
        return
    for n, x in a.items():
        k.prove(f"record/{n}", k.eq(k.get(o2, n), x))
    k.prove("record/equal", k.eq(o2, o))


def reference(k):
    c, l = k.str("class_name"), k.opt(k.str("location"), "no_location")
    o = k.new(R, c, l)
    o2 = convert(k, "reference", R, o)
    if o2 is not None:
        k.prove("reference/class-name", k.eq(k.get(o2, "class_name"), c))
        k.prove("reference/location", k.eq(k.get(o2, "location"), l))
        k.prove("reference/equal", k.eq(o2, o))


def local_source(k):
    p, r = k.str("repository"), k.str("object_reference")
    C = "metadatasource.LocalGitMetadataSource"
    path = k.call(k.cls("metadatasource.Path"), p)
    o = k.new(C, path, r)
    base = ["metadatasource.MetadataSource", C][k.choose(2)]
    o2 = convert(k, "local-source", base, o)
    if o2 is not None:
        k.prove("local-source/class", isinstance(o2, Obj) and o2.cls is k.cls(C))
        k.prove("local-source/repository", k.eq(k.get(o2, "git_repository_path"), path))
        k.prove("local-source/object", k.eq(k.get(o2, "object_reference"), k.get(o, "object_reference")))
        k.prove("local-source/equal", k.eq(o2, o))


def immediate_source(k):
    c = k.val("content")
    C = "metadatasource.ImmediateMetadataSource"
    o = k.new(C, c)
    base = ["metadatasource.MetadataSource", C][k.choose(2)]
    o2 = convert(k, "immediate-source", base, o)
    if o2 is not None:
        k.prove("immediate-source/class", isinstance(o2, Obj) and o2.cls is k.cls(C))
        k.prove("immediate-source/content", k.eq(k.get(o2, "content"), c))
        k.prove("immediate-source/equal", k.eq(o2, o))


# ------------------------------------------------------------------ instance sets

def instance_set(k):
    """the same configurations with the same records, in any number"""
    D = Runs(k)
    o2 = convert(k, "set", f"{M}.MetadataInstanceSet", D.set)
    if o2 is None:
        return

    def one():
        q, v, p = configuration(k, "asked")
        has, i = D.index(v, p)
        a = k.attempt(lambda: k.m(o2, "get_instance_for_configuration", q))
        if not k.branch(has):
            k.cover("set/unknown")
            k.prove("set/no-other-configuration", not a.ok and k.is_exc(a.exc, "ValueError"))
            return
        k.cover("set/known")
        k.prove("set/configuration-is-found", a.ok, why(k, a))
        if a.ok:
            same_record(k, "set", D, i, a.value)
    k.split(one)
    k.split(lambda: k.prove("set/same-number", k.eq(
        k.call(k.it.builtins["len"], k.get(o2, "configurations")), D.src.n)))


def same_record(k, label, D, i, r):
    for n, x in (("time_stamp", D.time(i)), ("author_name", D.author(i)), ("author_email", D.email(i)),
                 ("metadata_content", D.content(i))):
        k.prove(f"{label}/{n}", k.eq(k.get(r, n), x))
    c = k.get(r, "configuration")
    k.prove(f"{label}/configuration", bi.conj([k.eq(k.get(c, "version"), D.version(i)), k.eq(param(k, c), D.parameter(i))]))


# ------------------------------------------------------------------ metadata

def metadata(k):
    """the same extractors with the same instance sets (which are under contract)"""
    D = InstanceSets(k)
    o = k.new(f"{M}.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    o2 = convert(k, "metadata", f"{M}.Metadata", o, ("to_json", "from_json"))
    if o2 is None:
        return
    k.prove("metadata/mapped", k.truth(k.get(o2, "mapped")))
    k.prove("metadata/not-saved", z3.Not(bi.boolterm(bi.contains(k.it, k.get(o2, "saved_on"), k.str("destination")))))

    def one():
        x = k.str("extractor")
        has, i = D.index(x)
        a = k.attempt(lambda: k.m(o2, "extractor_runs_for_extractor", x))
        if not k.branch(has):
            k.cover("metadata/unknown")
            k.prove("metadata/no-other-extractor", not a.ok and k.is_exc(a.exc, "KeyError"))
            return
        k.cover("metadata/known")
        k.prove("metadata/extractor-is-found", a.ok, why(k, a))
        if a.ok:
            k.prove("metadata/instance-set", bi.identical(k.it, a.value, k.member(D.copies, i)))
    k.split(one)


# ------------------------------------------------------------------ foreign documents

def reject(k, label, doc, load, none=False):
    """the document with another type or another version never becomes an object"""
    t, v = (k.it.getitem(k.it.getitem(doc, "@"), n) for n in ("type", "version"))
    which = k.choose(3)
    t2, v2 = (k.str("type") if which != 1 else t), (k.str("version") if which != 0 else v)
    if which != 1:
        k.assume(bi.term(t2) != bi.term(t))
    if which != 0:
        k.assume(bi.term(v2) != bi.term(v))
    bi.setitem(k.it, doc, "@", k.dict(("type", t2), ("version", v2)))
    a = k.attempt(lambda: load(doc))
    k.prove(f"{label}/{['type', 'version', 'both'][which]}-is-rejected", not a.ok or (none and a.value is None))


def foreign_documents(k):
    """no class accepts a document of another class or of another format version"""
    c = k.choose(4)
    cls, o = [lambda: (f"{M}.ExtractorConfiguration", configuration(k)[0]),
              lambda: (f"{M}.MetadataInstance", record(k)[0]),
              lambda: (f"{M}.MetadataInstanceSet", Runs(k).set),
              lambda: (R, k.new(R, k.str("class_name"), k.str("location")))][c]()
    doc = k.m(o, "to_json_obj")
    as_text = k.bool("text")
    reject(k, f"foreign/{cls.split('.')[-1]}", doc, lambda d: k.call(
        k.it.getattr(k.cls(cls), "from_json_str" if as_text else "from_json_obj"),
        k.ext.json_text(d) if as_text else d))


def foreign_metadata(k):
    """neither loading nor converting metadata accepts a foreign document"""
    o = k.new(f"{M}.Metadata")
    k.ctx.put(o, "instance_sets", InstanceSets(k).dict)
    doc = k.ext.json_value(k.m(o, "to_json"))
    if k.bool("load"):
        o2 = k.new(f"{M}.Metadata")
        reject(k, "foreign/load-metadata", doc, lambda d: k.m(o2, "init_from_json", k.ext.json_text(d)))
    else:
        reject(k, "foreign/Metadata", doc, lambda d: k.call(
            k.it.getattr(k.cls(f"{M}.Metadata"), "from_json"), k.ext.json_text(d)))


def foreign_sources(k):
    """no metadata source is made from a foreign document; unknown kinds of sources are not accepted"""
    L, IM = (f"metadatasource.{n}" for n in ("LocalGitMetadataSource", "ImmediateMetadataSource"))
    c = k.choose(2)
    o = k.new(L, k.call(k.cls("metadatasource.Path"), k.str("repository")), k.str("object_reference")) if c == 0 \
        else k.new(IM, k.val("content"))
    own, other = (L, IM) if c == 0 else (IM, L)
    doc = k.m(o, "to_json_obj")
    n = k.choose(3)
    S_ = "metadatasource.MetadataSource"
    if n == 0:
        cls = [own, S_][k.choose(2)]
        reject(k, f"foreign/{own.split('.')[-1]}", doc, lambda d: k.call(
            k.it.getattr(k.cls(cls), "from_json_obj"), d), none=True)
    elif n == 1:
        a = k.attempt(lambda: k.call(k.it.getattr(k.cls(other), "from_json_obj"), doc))
        k.prove("foreign/source-of-another-kind", not a.ok or a.value is None)
    else:
        t = k.str("source_type")
        k.assume(z3.And(*[t != z3.StringVal(x.split(".")[-1]) for x in (L, IM)]))
        bi.setitem(k.it, doc, "metadata_source_type", t)
        cls = [L, IM, S_][k.choose(3)]
        a = k.attempt(lambda: k.call(k.it.getattr(k.cls(cls), "from_json_obj"), doc))
        k.prove("foreign/unknown-kind-of-source", not a.ok or a.value is None)


HARNESSES = [extractor_configuration, metadata_instance, reference, local_source, immediate_source, instance_set,
             metadata, foreign_documents, foreign_metadata, foreign_sources]
