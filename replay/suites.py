"""Executable contracts of the properties, run against the real code and git."""
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time

import lib
from lib import Crash, Gate, Gen, Violation, check, command, copy_model, exists, git, norm, objects, refs, same, short

PYTHON = sys.executable


def kind_of(g, o):
    for k, c in (("text", g.Text), ("metadata", g.Metadata), ("filetree", g.FileTree), ("datasettree", g.DatasetTree),
                 ("mtree", g.MTreeNode), ("mrr", g.MRR), ("treeversionlist", g.TreeVersionList),
                 ("versionlist", g.VersionList), ("uuidset", g.UUIDSet)):
        if isinstance(o, c):
            return k


def is_none(ref):
    return ref.is_none_reference()


# ------------------------------------------------------------------ C01

def roundtrip(rng, sc):
    g = Gen(rng)
    kind = rng.choice(g.KINDS)
    o, model = g.make(kind)
    realm = sc.repo()
    same(g.snap(o), norm(model), f"content of a new {kind}")
    ref = o.write_out(realm)
    check(ref is not None, "write_out returns a reference")
    back = g.load(kind, realm, ref)
    same(g.snap(back), norm(model), f"reloaded {kind}")
    # load completely, once more unchanged
    back = g.load(kind, realm, ref)
    back.read_in()
    same(g.snap(back), norm(model), f"loaded {kind}")
    r2 = back.write_out()
    same(r2.location, ref.location, f"unchanged {kind}: reference")
    r3 = back.write_out(realm, force_write=True)
    same(r3.location, ref.location, f"unchanged {kind}, forced: reference")
    if rng.random() < 0.5:
        other = sc.repo()
        full = g.load(kind, realm, ref)
        full.read_in()
        same(g.snap(full), norm(model), "content before the copy")
    r = rng.random()
    if r < 0.15 and not is_none(ref):
        out = subprocess.run([PYTHON, os.path.join(os.path.dirname(os.path.abspath(__file__)), "other.py"), kind, realm,
                              ref.to_json_str()], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env=dict(os.environ, PYTHONPATH=os.environ.get("PYVC_REPO", "/repo")))
        check(out.returncode == 0, f"loading in another process failed: {out.stderr.decode()[-800:]}")
        same(out.stdout.decode(), repr(lib.freeze(list(g.snap(o)))), f"{kind} loaded in another process")
    return f"{kind} {short(model, 200)}"


def rebuild(rng, sc):
    """equal content built and stored twice has the same reference"""
    g = Gen(rng)
    kind = rng.choice(["text", "metadata", "mtree", "filetree", "datasettree"])
    st = rng.getstate()
    a, model = g.make(kind)
    r1, r2 = sc.repo(), sc.repo()
    refa = a.write_out(r1)
    g2 = Gen(rng)
    rng.setstate(st)
    b, model2 = g2.make(kind)
    same(norm(model2), norm(model), "the generator is deterministic")
    refb = b.write_out(r2)
    same(refb.location, refa.location, f"{kind}: reference of equal content")
    return f"{kind} {short(model, 200)}"


def odd_entries(rng, sc):
    """sub-trees without entries, absent parts"""
    g = Gen(rng)
    realm = sc.repo()
    t, model = g.make_mtree(rng.randint(0, 3))
    for i in range(rng.randint(1, 2)):
        p = f"empty{i}" + ("/deep" if rng.random() < 0.5 else "")
        n = g.MTreeNode(g.Text)
        t.add_child_at(n, g.Path(p))
    ref = t.write_out(realm)
    same(g.snap(g.load("mtree", realm, ref)), norm(model), "tree with empty sub-trees")
    mrr = g.MRR(g.uuid(), g.version(), g.Metadata() if rng.random() < 0.5 else None, g.FileTree() if rng.random() < 0.7 else None)
    ref = mrr.write_out(realm)
    back = g.load("mrr", realm, ref)
    ft = back.get_file_tree()
    check(ft is None or list(ft.get_paths_recursive()) == [], "an empty file tree reads back as absent or empty")
    same(back.get_dataset_level_metadata() is None, mrr.dataset_level_metadata is None, "presence of dataset-level metadata")
    vl = g.VersionList() if rng.random() < 0.5 else g.TreeVersionList()
    k = kind_of(g, vl)
    same(g.snap(g.load(k, realm, vl.write_out(realm))), ("versions", {}), "empty version list")
    us = g.UUIDSet()
    same(g.snap(g.load("uuidset", realm, us.write_out(realm))), ("uuids", {}), "empty set")
    tl = g.TreeVersionList()
    tl.set_versioned_element("v", "1", g.Path("p"), g.DatasetTree())
    same(g.snap(g.load("treeversionlist", realm, tl.write_out(realm))), ("versions", {("v", "p"): ("1", ("datasets", {}))}),
         "version list with an empty dataset tree")
    return short(model, 200)


# ------------------------------------------------------------------ C02, C03

class Edit:
    """random operations on an object and its model, through the public interface"""

    def __init__(self, g, rng):
        self.g, self.rng = g, rng

    def parts(self, o, model):
        """(object, model, chain of containers) of all parts; loads what it visits"""
        out = []

        def walk(o, m, chain):
            o.ensure_mapped()
            out.append((o, m, chain))
            g = self.g
            c = chain + [o]
            if isinstance(o, g.DatasetTree):
                for p in list(m[1]):
                    walk(o.get_metadata_root_record(g.Path(p)), m[1][p], c)
            elif isinstance(o, g.FileTree):
                for p in list(m[1]):
                    walk(o.get_metadata(g.Path(p)), m[1][p], c)
            elif isinstance(o, g.MTreeNode):
                for p in list(m[1]):
                    walk(o.get_object_at_path(g.Path(p)), m[1][p], c)
            elif isinstance(o, g.MRR):
                md = o.get_dataset_level_metadata()
                if md is not None:
                    walk(md, m[3], c)
                ft = o.get_file_tree()
                if ft is not None:
                    walk(ft, m[4], c)
            elif isinstance(o, g.VersionList):
                for (v, p) in list(m[1]):
                    e = o.get_versioned_element(v, g.Path(p))[2]
                    walk(e, m[1][(v, p)][1], c)
            elif isinstance(o, g.UUIDSet):
                for u in list(m[1]):
                    walk(o.get_version_list(u), m[1][u], c)
        walk(o, model, [])
        return out

    def pick(self, o, model):
        return self.rng.choice(self.parts(o, model))

    def change(self, o, m):
        """change one part; returns a description or None if nothing was changed"""
        g, rng = self.g, self.rng
        if isinstance(o, g.Text):
            return None
        if isinstance(o, g.Metadata):
            g.add_run(o, m)
            return "add run"
        if isinstance(o, g.DatasetTree):
            p = rng.choice(["", g.path()])
            if p in m[1]:
                if p == "":
                    return None
                inside = [q for q in m[1] if q == p or q.startswith(p + "/")]
                o.delete_subtree(g.Path(p))
                for q in inside:
                    del m[1][q]
                return f"delete {p!r}"
            e, em = g.make_mrr()
            o.add_dataset(g.Path(p), e)
            m[1][p] = em
            return f"add dataset {p!r}"
        if isinstance(o, g.FileTree):
            if m[1] and rng.random() < 0.4:
                p = rng.choice(list(m[1]))
                ts, ex, a, e, (cv, cp), content = run = g.run()
                o.add_extractor_run(g.Path(p), ts, ex, a, e, g.EC(cv, cp), content)
                shadow = g.Metadata()
                g.add_run(shadow, m[1][p], run)
                return f"add run at {p!r}"
            p = g.path()
            if not g.free(m[1], p):
                return None
            e, em = g.make_metadata(1)
            o.add_metadata(g.Path(p), e)
            m[1][p] = em
            return f"add file {p!r}"
        if isinstance(o, g.MTreeNode):
            if m[1] and rng.random() < 0.4:
                p = rng.choice(list(m[1]))
                o.remove_child_at(g.Path(p))
                del m[1][p]
                return f"remove {p!r}"
            p = g.path()
            if not g.free(m[1], p) or self.occupied(o, p):
                return None
            e, em = g.make_text()
            o.add_child_at(e, g.Path(p))
            m[1][p] = em
            return f"add {p!r}"
        if isinstance(o, g.MRR):
            if rng.random() < 0.15:
                o.set_file_tree(o.get_file_tree())
                o.set_dataset_level_metadata(o.get_dataset_level_metadata())
                return "set the same parts"
            if rng.random() < 0.5:
                e, em = g.make_metadata() if rng.random() < 0.8 else (None, None)
                o.set_dataset_level_metadata(e)
                m[3] = em
                return "set metadata"
            e, em = g.make_filetree() if rng.random() < 0.8 else (None, ("tree", {}))
            o.set_file_tree(e)
            m[4] = em
            return "set file tree"
        if isinstance(o, g.VersionList):
            if m[1] and rng.random() < 0.3:
                # the same element again, usually with another time stamp
                v, p = rng.choice(list(m[1]))
                old, q, e = o.get_versioned_element(v, g.Path(p))
                ts = rng.choice([x for x in lib.STAMPS if x != old])
                if rng.random() < 0.2:
                    ts = old
                o.set_versioned_element(v, ts, g.Path(p), e)
                m[1][(v, p)] = (ts, m[1][(v, p)][1])
                return f"set the same element again: {v!r} {p!r} {ts!r}"
            v, p = g.set_version(o, m, isinstance(o, g.TreeVersionList))
            return f"set version {v!r} {p!r}"
        if isinstance(o, g.UUIDSet):
            if m[1] and rng.random() < 0.2:
                u = rng.choice(list(m[1]))
                o.set_version_list(u, o.get_version_list(u))
                return f"set the same list again: {u}"
            u = g.uuid()
            e, em = g.make_versionlist(False)
            o.set_version_list(u, e)
            m[1][u] = em
            return f"set {u}"

    def occupied(self, o, p):
        """after a removal an empty sub-tree may remain in memory"""
        return o.get_object_at_path(self.g.Path(p)) is not None

    def read(self, o, m):
        """operations that only read"""
        g, rng = self.g, self.rng
        if isinstance(o, (g.FileTree, g.DatasetTree, g.MTreeNode)):
            list(o.get_paths_recursive(rng.random() < 0.5))
            g.Path("not/there") in o
            if isinstance(o, g.FileTree):
                o.get_metadata(g.Path("no/such/file"))
            elif isinstance(o, g.DatasetTree):
                o.get_metadata_root_record(g.Path("no/such/dataset"))
                list(o.dataset_paths)
            else:
                o.get_object_at_path(g.Path("no/such"))
                o.get_child("nothing")
        elif isinstance(o, g.Metadata):
            list(o.extractors)
            for _, s in o.extractor_runs:
                list(s)
                s.configurations
            o.to_json()
            o == o
        elif isinstance(o, g.MRR):
            o.get_file_tree(), o.get_dataset_level_metadata(), o.dataset_identifier, o.dataset_version
        elif isinstance(o, g.VersionList):
            list(o.versions()), list(o.versions_and_prefix_paths()), list(o.versioned_elements), len(o)
            for v in set(o.versions()):
                list(o.get_versioned_elements(v))
            try:
                o.get_versioned_element("no such version", g.Path("x"))
            except KeyError:
                pass
        elif isinstance(o, g.UUIDSet):
            import uuid
            list(o.uuids())
            try:
                o.get_version_list(uuid.UUID(int=99))
            except KeyError:
                pass


def store(g, ed, o, m, realm, log):
    """
    Write. Parts that are not loaded cannot be written to a realm on which they
    are not stored: that is refused, and works after they were loaded.
    """
    try:
        return o.write_out(realm)
    except RuntimeError as e:
        log.append(f"refused")
        same(g.snap(o), norm(m), f"content after a refused write, history {log}")
        for d in range(3):
            ed.parts(o, m)
        return o.write_out(realm)


CONTAINERS = ("mtree", "filetree", "mrr", "datasettree", "versionlist", "treeversionlist", "uuidset", "metadata", "text")


def tracking(rng, sc):
    g = Gen(rng)
    ed = Edit(g, rng)
    kind = rng.choice(CONTAINERS[:7] * 3 + CONTAINERS[7:])
    o, m = g.make(kind)
    realms = [sc.repo(), sc.repo()]
    log = [kind]

    def now(what):
        same(g.snap(o), norm(m), f"content {what}, history {log}")

    for step in range(rng.randint(4, 14)):
        r = rng.random()
        realm = rng.choice(realms[:1] * 3 + realms[1:])
        if r < 0.35:
            part, pm, chain = ed.pick(o, m)
            what = ed.change(part, pm)
            if what is None:
                continue
            log.append(f"{kind_of(g, part)}: {what}")
            for c in [part] + chain:
                for d in realms:
                    check(not c.is_saved_on(d), f"{kind_of(g, c)} counts as saved after a change: history {log}")
            now("after a change")
        elif r < 0.6:
            log.append(f"write {realms.index(realm)}")
            ref = store(g, ed, o, m, realm, log)
            same(g.snap(g.load(kind, realm, ref)), norm(m), f"reloaded after writing, history {log}")
            check(o.is_saved_on(realm), f"not saved after writing, history {log}")
            now("after writing")
        elif r < 0.72:
            part, pm, chain = ed.pick(o, m)
            log.append(f"write part {kind_of(g, part)} to {realms.index(realm)}")
            ref = store(g, ed, part, pm, realm, log)
            same(g.snap(g.load(kind_of(g, part), realm, ref)), norm(pm), f"reloaded part, history {log}")
            now("after writing a part")
        elif r < 0.8:
            part, pm, chain = ed.pick(o, m)
            saved = [[c.is_saved_on(d) for d in realms] for c in [part] + chain]
            log.append(f"read {kind_of(g, part)}")
            ed.read(part, pm)
            same([[c.is_saved_on(d) for d in realms] for c in [part] + chain], saved, f"saved state after reading, history {log}")
            now("after reading")
        elif r < 0.9:
            part, pm, chain = ed.pick(o, m) if rng.random() < 0.5 else (o, m, [])
            log.append(f"purge {kind_of(g, part)}")
            saved = any(part.is_saved_on(d) for d in realms)
            try:
                part.purge()
                log.append("purged")
            except Exception:
                check(not saved, f"purging a saved object failed, history {log}")
                log.append("refused")
            now("after purging")
        elif r < 0.95:
            log.append("write and purge")
            part, pm, chain = ed.pick(o, m) if rng.random() < 0.5 else (o, m, [])
            store(g, ed, part, pm, realm, log)
            part.purge()
            now("after writing and purging")
        else:
            log.append("write again")
            ref = store(g, ed, o, m, realm, log)
            ref2 = store(g, ed, o, m, realm, log)
            same(ref2.location, ref.location, f"reference of a second write, history {log}")
    ref = store(g, ed, o, m, realms[0], log)
    log.append("final write")
    same(g.snap(g.load(kind, realms[0], ref)), norm(m), f"finally reloaded, history {log}")
    return str(log)


def deep_change(rng, sc):
    """save everything, change something deep down, write the top only"""
    g = Gen(rng)
    ed = Edit(g, rng)
    kind = rng.choice(("uuidset", "treeversionlist", "versionlist", "datasettree", "mrr", "filetree", "mtree"))
    for _ in range(20):
        o, m = g.make(kind)
        if len(ed.parts(o, m)) > 1:
            break
    a, b = sc.repo(), sc.repo()
    log = [kind]
    ref = store(g, ed, o, m, a, log)
    if rng.random() < 0.5:
        o = g.load(kind, a, ref)
        log.append("loaded")
    for i in range(rng.randint(1, 3)):
        for _ in range(10):
            parts = ed.parts(o, m)
            deepest = max(len(c) for _, _, c in parts)
            part, pm, chain = rng.choice([x for x in parts if len(x[2]) >= max(0, deepest - 1)])
            what = ed.change(part, pm)
            if what:
                break
        else:
            return "nothing to change"
        log.append(f"{kind_of(g, part)}: {what}")
        for c in [part] + chain:
            check(not c.is_saved_on(a), f"{kind_of(g, c)} counts as saved, history {log}")
        # the object must not be purged now
        for c in [o] + ([rng.choice(chain)] if chain else []):
            try:
                c.purge()
                purged = True
            except Exception:
                purged = False
            check(not purged, f"unsaved {kind_of(g, c)} was purged, history {log}")
        same(g.snap(o), norm(m), f"content after a refused purge, history {log}")
        mode = rng.choice(["top", "part first", "other realm first", "chain"])
        log.append(mode)
        if mode == "part first":
            store(g, ed, part, pm, a, log)
        elif mode == "chain" and chain:
            c, cm = rng.choice([(x, xm) for x, xm, _ in parts if any(x is y for y in chain)])
            store(g, ed, c, cm, a, log)
        elif mode == "other realm first":
            rb = store(g, ed, o, m, b, log)
            same(g.snap(g.load(kind, b, rb)), norm(m), f"reloaded from the other realm, history {log}")
        ref = store(g, ed, o, m, a, log)
        same(g.snap(g.load(kind, a, ref)), norm(m), f"reloaded, history {log}")
        o.purge()
        same(g.snap(o), norm(m), f"content after purge, history {log}")
    return str(log)


def shared(rng, sc):
    """one object in two containers"""
    g = Gen(rng)
    realm = sc.repo()
    which = rng.choice(["metadata", "mrr"])
    if which == "metadata":
        e, em = g.make_metadata(1)
        t1, t2 = g.FileTree(), g.FileTree()
        t1.add_metadata(g.Path("a"), e)
        t2.add_metadata(g.Path("b/c"), e)
        ks = ("filetree", "filetree")
        m1, m2 = ("tree", {"a": em}), ("tree", {"b/c": em})
    else:
        e, em = g.make_mrr()
        t1, t2 = g.DatasetTree(), g.VersionList()
        t1.add_dataset(g.Path("a"), e)
        t2.set_versioned_element("v", "1", g.Path(""), e)
        ks = ("datasettree", "versionlist")
        m1, m2 = ("datasets", {"a": em}), ("versions", {("v", ""): ("1", em)})
    ts = [(t1, m1, ks[0]), (t2, m2, ks[1])]
    log = [which]
    for _ in range(4):
        if rng.random() < 0.6:
            if which == "metadata":
                g.add_run(e, em)
            else:
                x, xm = g.make_metadata(1)
                e.set_dataset_level_metadata(x)
                em[3] = xm
            log.append("change")
            for t, _, k in ts:
                check(not t.is_saved_on(realm), f"{k} counts as saved, history {log}")
        order = ts[:]
        rng.shuffle(order)
        for t, m, k in order:
            ref = t.write_out(realm)
            log.append(f"write {k}")
            same(g.snap(g.load(k, realm, ref)), norm(m), f"reloaded {k}, history {log}")
    return str(log)


# ------------------------------------------------------------------ C04

def tree_model(rng, sc):
    """MTreeNode against a map from paths to leaves"""
    g = Gen(rng)
    realm = sc.repo()
    t = g.MTreeNode(g.Text)
    leaves, dirs = {}, set()        # dirs: inner nodes in memory
    log = []
    alphabet = rng.choice([["a", "b", "ab"], ["a", "b", "a b", "q\"", "\\", "n\nl"], ["x", "xx"]])

    def path(n=4):
        return [rng.choice(alphabet) for _ in range(rng.randint(1, n))]

    def state(msg):
        got = {}
        for p, e in t.get_paths_recursive():
            check(str(p) not in got, f"{msg}: {str(p)!r} twice, history {log}")
            e.ensure_mapped()
            got[str(p)] = e.content
        same(got, {"/".join(k): v for k, v in leaves.items()}, f"{msg}: leaves, history {log}")

    for step in range(rng.randint(5, 18)):
        r = rng.random()
        p = path()
        tp = tuple(p)
        P = g.Path("/".join(p))
        prefixes = [tp[:i] for i in range(1, len(tp))]
        if r < 0.45:
            blocked = any(q in leaves for q in prefixes) or tp in leaves or tp in dirs
            c = rng.choice(["c", f"c{step}"])
            log.append(f"add {'/'.join(p)!r} {c}")
            try:
                t.add_child_at(g.Text(c), P)
                ok = True
            except (ValueError, AssertionError):
                ok = False
            check(ok == (not blocked), f"{log[-1]} {'succeeded' if ok else 'was rejected'}, history {log}")
            if ok:
                leaves[tp] = c
                dirs.update(prefixes)
        elif r < 0.6:
            log.append(f"remove {'/'.join(p)!r}")
            there = tp in leaves or tp in dirs
            try:
                t.remove_child_at(P)
                ok = True
            except (KeyError, AttributeError, ValueError):
                ok = False
            check(ok == there, f"{log[-1]}: {ok}, history {log}")
            if ok:
                leaves = {k: v for k, v in leaves.items() if k[:len(tp)] != tp}
                dirs = {k for k in dirs if k[:len(tp)] != tp}
        elif r < 0.75:
            e = t.get_object_at_path(P)
            if tp in leaves:
                check(isinstance(e, g.Text), f"no element at {str(P)!r}, history {log}")
                e.ensure_mapped()
                same(e.content, leaves[tp], f"element at {str(P)!r}")
            elif tp in dirs:
                check(isinstance(e, g.MTreeNode), f"no sub-tree at {str(P)!r}, history {log}")
            else:
                check(e is None, f"unexpected element at {str(P)!r}: {e}, history {log}")
            check((g.Path(p[0]) in t) == (t.get_child(p[0]) is not None), "membership")
        elif r < 0.9:
            log.append("write, reload")
            ref = t.write_out(realm)
            dirs = {k[:i] for k in leaves for i in range(1, len(k))}
            if rng.random() < 0.5:
                t = g.load("mtree", realm, ref)
            else:
                # sub-trees without entries are not persisted
                t.purge()
                if not leaves:
                    t = g.MTreeNode(g.Text)
        else:
            log.append("intermediate")
            seen = [str(q) for q, e in t.get_paths_recursive(True) if isinstance(e, g.MTreeNode)]
            same(sorted(seen), sorted([""] + ["/".join(d) for d in dirs]), f"sub-trees, history {log}")
        state("state")
    return str(log)


def proxy_model(rng, sc):
    """FileTree and DatasetTree against a map"""
    g = Gen(rng)
    realm = sc.repo()
    files = rng.random() < 0.5
    t = g.FileTree() if files else g.DatasetTree()
    kind = "filetree" if files else "datasettree"
    m = {}
    log = [kind]
    for step in range(rng.randint(4, 12)):
        r = rng.random()
        p = g.path(3) if rng.random() < 0.7 else rng.choice(["a", "a/b", "a/b/c", "b"])
        if not files and rng.random() < 0.2:
            p = ""
        P = g.Path(p)
        if r < 0.5:
            free = g.free(m, p) if files else p not in m
            e, em = g.make_metadata(1) if files else g.make_mrr()
            log.append(f"add {p!r}")
            try:
                (t.add_metadata if files else t.add_dataset)(P, e)
                ok = True
            except (ValueError, AssertionError):
                ok = False
            check(ok == free, f"{log[-1]}: {ok}, history {log}")
            if ok:
                m[p] = em
        elif r < 0.7:
            if files and p not in m and not g.free(m, p):
                continue
            e = t.get_metadata(P) if files else t.get_metadata_root_record(P)
            same(e is not None, p in m, f"element at {p!r}, history {log}")
            if e is not None:
                same(g.snap(e), norm(m[p]), f"element at {p!r}, history {log}")
            if not files:
                same(P in t, p in m, f"{p!r} in tree, history {log}")
            elif g.free(m, p) or p in m:
                same(P in t, p in m, f"{p!r} in tree, history {log}")
        elif r < 0.8 and not files:
            inside = [q for q in m if p and (q == p or q.startswith(p + "/"))]
            if not inside:
                continue
            log.append(f"delete {p!r}")
            t.delete_subtree(P)
            for q in inside:
                del m[q]
        elif r < 0.85 and not files:
            s, sm = g.make_datasettree(2)
            if p and not any(q == p or q.startswith(p + "/") for q in m) and t.mtree.get_object_at_path(P) is None:
                log.append(f"add sub-tree {p!r} {list(sm[1])}")
                t.add_subtree(s, P)
                for q, x in sm[1].items():
                    m[p + ("/" + q if q else "")] = x
        else:
            log.append("write")
            ref = t.write_out(realm)
            if rng.random() < 0.6:
                t = g.load(kind, realm, ref)
        same(g.snap(t), norm(("tree" if files else "datasets", m)), f"content, history {log}")
        if not files:
            same(sorted(str(q) for q, _ in t.dataset_paths), sorted(m), f"dataset paths, history {log}")
    return str(log)


# ------------------------------------------------------------------ C05

def list_model(rng, sc):
    g = Gen(rng)
    realm = sc.repo()
    tree = rng.random() < 0.5
    vl = g.TreeVersionList() if tree else g.VersionList()
    kind = "treeversionlist" if tree else "versionlist"
    m = {}
    log = [kind]
    for step in range(rng.randint(4, 12)):
        r = rng.random()
        v, p = g.version(), g.prefix()
        if m and rng.random() < 0.5:
            # a known version, a known prefix path, or both
            x, y = rng.choice(list(m)), rng.choice(list(m))
            v, p = rng.choice([(x[0], p), (x[0], ""), (x[0], y[1]), x])
        P = g.Path(p)
        if r < 0.4:
            e, em = g.make_datasettree(1) if tree else g.make_mrr()
            ts = g.stamp()
            (vl.set_dataset_tree if tree and rng.random() < 0.5 else vl.set_versioned_element)(v, ts, P, e)
            m[(v, p)] = (ts, em)
            log.append(f"set {v!r} {p!r}")
        elif r < 0.6:
            log.append(f"get {v!r} {p!r}")
            try:
                ts, q, e = (vl.get_dataset_tree if tree and rng.random() < 0.5 else vl.get_versioned_element)(v, P)
                got = (ts, str(q), g.snap(e))
            except KeyError:
                got = None
            want = (m[(v, p)][0], p, norm(m[(v, p)][1])) if (v, p) in m else None
            same(got, want, f"entry {v!r} {p!r}, history {log}")
        elif r < 0.7:
            log.append(f"get all {v!r}")
            try:
                got = {str(q): (ts, g.snap(e)) for ts, q, e in
                       (vl.get_dataset_trees if tree and rng.random() < 0.5 else vl.get_versioned_elements)(v)}
            except KeyError:
                got = {}
            same(got, {q: (ts, norm(x)) for (w, q), (ts, x) in m.items() if w == v}, f"entries of {v!r}, history {log}")
        elif r < 0.8 and m:
            v, p = rng.choice(list(m))
            log.append(f"unget {v!r} {p!r}")
            (vl.unget_dataset_tree if tree and rng.random() < 0.5 else vl.unget_versioned_element)(v, g.Path(p), realm)
        elif r < 0.9:
            log.append("write, reload")
            ref = vl.write_out(realm)
            if rng.random() < 0.6:
                vl = g.load(kind, realm, ref)
            else:
                vl.purge()
        loaded_len = len(vl)
        same(loaded_len, len(m), f"size, history {log}")
        same(sorted(vl.versions()), sorted(v for v, _ in m), f"versions, history {log}")
        same(sorted((v, str(q)) for v, q in vl.versions_and_prefix_paths()), sorted(m), f"keys, history {log}")
        same(g.snap(vl), norm(("versions", m)), f"content, history {log}")
        if rng.random() < 0.3:
            try:
                vl.purge()
            except ValueError:
                pass
    return str(log)


def set_model(rng, sc):
    g = Gen(rng)
    realm = sc.repo()
    us = g.UUIDSet()
    m = {}
    log = []
    for step in range(rng.randint(4, 10)):
        r = rng.random()
        u = g.uuid()
        if r < 0.4:
            e, em = g.make_versionlist(False)
            us.set_version_list(u, e)
            m[u] = em
            log.append(f"set {u.int}")
        elif r < 0.6:
            try:
                got = g.snap(us.get_version_list(u))
            except KeyError:
                got = None
            same(got, norm(m[u]) if u in m else None, f"entry {u}, history {log}")
        elif r < 0.75 and m:
            u = rng.choice(list(m))
            log.append(f"unget {u.int}")
            try:
                us.unget_version_list(u)
            except AssertionError:
                # an element that was never written has no default destination
                us.get_version_list(u).write_out(realm)
                us.unget_version_list(u)
        elif r < 0.9:
            log.append("write, reload")
            ref = us.write_out(realm)
            if rng.random() < 0.6:
                us = g.load("uuidset", realm, ref)
            else:
                us.purge()
        same(sorted(us.uuids()), sorted(m), f"identifiers, history {log}")
        same(g.snap(us), norm(("uuids", m)), f"content, history {log}")
    return str(log)


# ------------------------------------------------------------------ C06, C07

def runs(rng, sc):
    g = Gen(rng)
    md, m = g.Metadata(), ("metadata", {})
    direct = {}
    realm = sc.repo()
    log = []
    for step in range(rng.randint(1, 10)):
        run = g.run()
        g.add_run(md, m, run)
        ts, ex, a, e, (cv, cp), content = run
        s = direct.setdefault(ex, g.MIS())
        s.add_metadata_instance(g.MI(ts, a, e, g.EC(cv, cp), content))
        log.append(f"{ex} {cv} {cp} {ts}")
        same(g.snap(md), norm(m), f"content, history {log}")
        if rng.random() < 0.3:
            md.write_out(realm)
            if rng.random() < 0.7:
                md = g.load("metadata", realm, md.reference)
                log.append("reloaded")
        for ex, entries in m[1].items():
            s = md.extractor_runs_for_extractor(ex)
            same(len(s.configurations), len(entries), f"number of configurations of {ex!r}, history {log}")
            same(len(list(s)), len(entries), f"number of records of {ex!r}, history {log}")
            for cv, cp, ts, a, e, content in entries:
                i = s.get_instance_for_configuration(g.EC(cv, dict(cp)))
                same((i.time_stamp, i.author_name, i.author_email, i.metadata_content, i.configuration.version,
                      dict(i.configuration.parameter)), (ts, a, e, content, cv, cp), f"record, history {log}")
            check(s == direct[ex], f"record sets differ, history {log}")
        same(sorted(md.extractors), sorted(m[1]), "extractors")
        try:
            md.extractor_runs_for_extractor("no such extractor")
            check(False, "records of an unknown extractor")
        except KeyError:
            pass
    before = time.time()
    md.add_extractor_run(None, "now", "a", "e", g.EC("1", {}), {})
    t = list(md.extractor_runs_for_extractor("now"))[0].time_stamp
    check(before <= t <= time.time(), "default time stamp")
    return str(log)


def equality(rng, sc):
    """equal exactly if the content is equal, in any order"""
    g = Gen(rng)
    base = [g.run() for _ in range(rng.randint(0, 5))]
    seen = {}
    for r in base:
        seen[(r[1], r[4][0], json.dumps(r[4][1], sort_keys=True))] = r
    base = list(seen.values())
    shuffled = base[:]
    rng.shuffle(shuffled)

    def build(rs):
        md = g.Metadata()
        m = ("metadata", {})
        for r in rs:
            g.add_run(md, m, r)
        return md
    a, b = build(base), build(shuffled)
    check(a == b and b == a, f"equal content compares different: {short(base)} {short(shuffled)}")
    check(not (a != b), "inequality of equal content")
    changed = [list(r) for r in shuffled]
    how = rng.choice(["add", "drop", "ts", "author", "email", "content", "version", "parameter", "extractor"])
    if how == "add" or not changed:
        how = "add"
        changed.append([5, "new extractor" if rng.random() < 0.5 else (base[0][1] if base else "n"), "a", "e", ("new", {"x": 1}), {}])
    else:
        i = rng.randrange(len(changed))
        c = changed[i]
        if how == "drop":
            del changed[i]
        elif how == "ts":
            c[0] = c[0] + 7.25
        elif how == "author":
            c[2] += "x"
        elif how == "email":
            c[3] += "x"
        elif how == "content":
            c[5] = {"other": c[5]}
        elif how == "version":
            c[4] = (c[4][0] + "x", c[4][1])
        elif how == "parameter":
            c[4] = (c[4][0], dict(c[4][1], other=1))
        elif how == "extractor":
            c[1] += "x"
    d = build([tuple(c) for c in changed])
    check(not (a == d) and not (d == a), f"different content ({how}) compares equal: {short(base)}")
    check(a != d, f"inequality of different content ({how})")
    if base:
        ca, cb = g.EC(*base[0][4]), g.EC(*base[0][4])
        check(ca == cb and not ca != cb, "equal configurations")
        check(ca != g.EC(base[0][4][0] + "x", base[0][4][1]), "different configurations")
    return f"{how} {short(base, 200)}"


def json_inverse(rng, sc):
    g = Gen(rng)
    from dataladmetadatamodel.mapper.reference import Reference
    from dataladmetadatamodel.metadatasource import ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource
    from pathlib import Path
    md, m = g.make_metadata(rng.randint(0, 5))
    text = md.to_json()
    back = g.Metadata.from_json(text)
    same(g.snap(back), norm(m), "metadata from JSON")
    check(back == md, "metadata from JSON is equal")
    check(not back.is_saved_on(sc.dir) and back.ensure_mapped() is False, "metadata from JSON is loaded and unsaved")
    docs = [("metadata", json.loads(text), lambda d: g.Metadata.from_json(json.dumps(d)))]
    for ex, s in md.extractor_runs:
        b = g.MIS.from_json_str(s.to_json_str())
        check(b == s and s == b, "record set from JSON")
        same([c.to_json_obj() for c in b.configurations], [c.to_json_obj() for c in s.configurations], "configurations")
        o = s.to_json_obj()
        docs.append(("set", json.loads(json.dumps(o)), g.MIS.from_json_obj))
        for i in s:
            bi = g.MI.from_json_str(i.to_json_str())
            check(bi == i, "record from JSON")
            same((bi.time_stamp, bi.author_name, bi.author_email, bi.metadata_content), (i.time_stamp, i.author_name,
                 i.author_email, i.metadata_content), "record from JSON")
            docs.append(("record", json.loads(i.to_json_str()), g.MI.from_json_obj))
            bc = g.EC.from_json_str(i.configuration.to_json_str())
            check(bc == i.configuration, "configuration from JSON")
            docs.append(("configuration", json.loads(i.configuration.to_json_str()), g.EC.from_json_obj))
    ref = Reference(g.name(), rng.choice([None, g.name(), "*None*", "0" * 40]))
    br = Reference.from_json_str(ref.to_json_str())
    check(br == ref and br.is_none_reference() == ref.is_none_reference(), f"reference from JSON: {ref} {br}")
    same((br.class_name, br.location), (ref.class_name, ref.location), "reference from JSON")
    docs.append(("reference", ref.to_json_obj(), Reference.from_json_obj))
    old = dict(ref.to_json_obj(), mapper_family="git", realm="x")
    check(Reference.from_json_obj(old) == ref, "old style reference document")
    srcs = [LocalGitMetadataSource(Path(rng.choice(["/a/b", "rel", "/"])), rng.choice(["0" * 40, "refs/heads/x"])),
            ImmediateMetadataSource(g.value())]
    for s in srcs:
        check(MetadataSource.from_json_str(s.to_json_str()) == s, "source from JSON")
        check(type(MetadataSource.from_json_obj(s.to_json_obj())) is type(s), "type of source from JSON")
        docs.append(("source", s.to_json_obj(), MetadataSource.from_json_obj))
    # foreign documents
    kind, doc, load = rng.choice(docs)
    for bad in foreign(rng, doc):
        try:
            r = load(bad)
        except Exception:
            continue
        check(kind == "source" and r is None, f"foreign {kind} document was accepted: {short(bad)}")
    return f"{kind} {short(doc, 200)}"


def foreign(rng, doc):
    import copy
    types = ["Metadata", "MetadataInstanceSet", "MetadataInstance", "ExtractorConfiguration", "Reference", "LocalGitMetadataSource",
             "ImmediateMetadataSource", "", "metadata", None, 5]
    versions = ["1.0", "2.1", "2", "2.0.0", "3.0", "", None, 2.0, 2, " 2.0"]
    markers = []

    def find(d, path):
        if isinstance(d, dict):
            if set(d.get("@", ())) == {"type", "version"} and isinstance(d["@"], dict):
                markers.append(path)
            if "metadata_content" in d or "content" in d or "parameter" in d:
                for k in d:
                    if k not in ("metadata_content", "content", "parameter"):
                        find(d[k], path + [k])
            else:
                for k in d:
                    if k != "@":
                        find(d[k], path + [k])
        elif isinstance(d, list):
            for i, x in enumerate(d):
                find(x, path + [i])
    find(doc, [])
    for path in markers[:1] + rng.sample(markers, min(2, len(markers))):
        for key, values in (("type", types), ("version", versions)):
            for v in rng.sample(values, 4):
                bad = copy.deepcopy(doc)
                d = bad
                for k in path:
                    d = d[k]
                if d["@"][key] == v and type(d["@"][key]) is type(v):
                    continue
                d["@"][key] = v
                yield bad


# ------------------------------------------------------------------ C08

def in_memory(o, realm):
    """(class, object, loaded, saved, location) of an object and all its parts that are in memory"""
    out = []

    def walk(x):
        x = getattr(x, "mtree", x)
        out.append((type(x).__name__, x, x.mapped, x.is_saved_on(realm), x.reference.location if x.reference else None))
        for y in list(x.modifiable_sub_objects):
            walk(y)
    walk(o)
    return out


def deepcopy(rng, sc):
    g = Gen(rng)
    ed = Edit(g, rng)
    kind = rng.choice(g.KINDS)
    o, m = g.make(kind)
    a, b = sc.repo(), sc.repo()
    stored = rng.random() < 0.7
    loaded = True
    if stored:
        ref = o.write_out(a)
        if rng.random() < 0.6:
            o = g.load(kind, a, ref)
            loaded = False
            if rng.random() < 0.4:
                o.read_in()
                loaded = True
    saved = o.is_saved_on(a)
    dest = b if rng.random() < 0.65 or not stored else a
    kw = {}
    expected = copy_model(m)
    if kind in ("versionlist", "treeversionlist") and rng.random() < 0.6:
        pre = rng.choice(["", "pre", "p/q"])
        kw["path_prefix"] = g.Path(pre)
        expected = ("versions", {(v, "/".join(x for x in (pre, p) if x)): copy_model(e) for (v, p), e in m[1].items()})
    src_ref = o.reference.location if o.reference is not None else None
    before = in_memory(o, a)
    c = o.deepcopy(new_destination=dest, **kw)
    check(type(c) is type(o), f"the copy is a {type(c).__name__}")
    check(c is not o, "the copy is a new object")
    same(o.is_saved_on(a), saved, "saved state of the source")
    after = in_memory(o, a)
    check([x[0] for x in after] == [x[0] for x in before] and all(x is y for (_, x, *_), (_, y, *_) in zip(before, after)),
          f"other parts are in memory after copying {kind}: {before} {after}")
    same([x[2:] for x in after], [x[2:] for x in before], f"states of the parts after copying {kind}")
    mine = {id(x[1]) for x in in_memory(c, dest)}
    check(not any(id(x[1]) in mine for x in after), f"{kind}: source and copy share a part")
    same(o.ensure_mapped(), not loaded, "the source was unloaded")
    if not loaded:
        o.purge()
    same(o.reference.location if o.reference is not None else None, src_ref, "reference of the source")
    same(g.snap(o), norm(m), f"source after copying {kind}")
    check(c.is_saved_on(dest), "the copy is stored in the destination")
    cref = c.reference
    check(cref is not None, "the copy has a reference")
    hidden = None
    if dest == b and stored:
        hidden = a + ".hidden"
        os.rename(a, hidden)
    same(g.snap(c), norm(expected), f"copy of {kind}")
    same(g.snap(g.load(kind, dest, cref)), norm(expected), f"reloaded copy of {kind}")
    if hidden:
        os.rename(hidden, a)
    # independence
    for which in ("copy", "source"):
        x, xm = (c, expected) if which == "copy" else (o, m)
        for _ in range(6):
            part, pm, chain = ed.pick(x, xm)
            what = ed.change(part, pm)
            if what:
                break
        same(g.snap(o), norm(m), f"source after changing the {which}")
        same(g.snap(c), norm(expected), f"copy after changing the {which}")
    # values inside of metadata are not shared either
    if kind == "metadata" and m[1]:
        ex = rng.choice(list(m[1]))
        o2, m2 = g.make_metadata(0)
        content = {"list": [1]}
        o2.add_extractor_run(1, "e", "a", "m", g.EC("1", {"p": [1]}), content)
        c2 = o2.deepcopy(new_destination=dest)
        before = g.snap(c2)
        content["list"].append(2)
        for i in o2.extractor_runs_for_extractor("e"):
            i.metadata_content["list"].append(3)
            i.configuration.parameter["p"].append(2)
        same(g.snap(c2), before, "copy after changing a value in the source")
    return f"{kind} {'stored' if stored else 'new'} {short(m, 200)}"


# ------------------------------------------------------------------ C09, C10

def top(g, rng, datasets=3):
    """top-level objects with several datasets and their model"""
    tvl, tm = g.make_versionlist(True)
    us, um = g.make_uuidset()
    return tvl, tm, us, um


def load_top(realm):
    from dataladmetadatamodel.common import get_top_level_metadata_objects
    return get_top_level_metadata_objects("git", realm)


def snap_top(g, realm):
    tvl, us = load_top(realm)
    return (None if tvl is None else g.snap(tvl), None if us is None else g.snap(us))


def flush(realm):
    from pathlib import Path
    from dataladmetadatamodel.mapper.gitmapper.objectreference import flush_object_references
    flush_object_references(Path(realm))


def collect_garbage(realm):
    git(realm, "-c", "gc.pruneExpire=now", "-c", "core.logAllRefUpdates=false", "prune", "--expire=now")


def reachable(rng, sc):
    g = Gen(rng)
    ed = Edit(g, rng)
    realm = sc.repo()
    tvl, tm, us, um = top(g, rng)
    log = []
    shared_mrr = rng.random() < 0.5
    for rnd in range(rng.randint(1, 3)):
        order = [("tvl", tvl), ("us", us)]
        rng.shuffle(order)
        for n, o in order:
            if rng.random() < 0.3:
                part, pm, _ = ed.pick(o, tm if n == "tvl" else um)
                if kind_of(g, part) not in ("text",):
                    part.write_out(realm)
                    log.append(f"write part {kind_of(g, part)}")
            o.write_out(realm)
            log.append(f"write {n}")
        if rng.random() < 0.3:
            # another process holds the lock of the reference
            lock_file = os.path.join(realm, ".git", "refs", "datalad", "object-references-2.0.lock")
            os.makedirs(os.path.dirname(lock_file), exist_ok=True)
            open(lock_file, "w").close()
            try:
                flush(realm)
            except RuntimeError:
                log.append("flush fails")
            os.unlink(lock_file)
        flush(realm)
        log.append("flush")
        collect_garbage(realm)
        same(snap_top(g, realm), (norm(tm), norm(um)), f"content after garbage collection, history {log}")
        if rng.random() < 0.5:
            tvl, us = load_top(realm)
            log.append("reload")
        for _ in range(rng.randint(0, 3)):
            o, m = (tvl, tm) if rng.random() < 0.5 else (us, um)
            part, pm, _ = ed.pick(o, m)
            what = ed.change(part, pm)
            log.append(f"{kind_of(g, part)}: {what}")
            if what and rng.random() < 0.4:
                # write the part on its own, with or without a flush
                part.write_out(realm)
                log.append("write part")
                if rng.random() < 0.3:
                    flush(realm)
    tvl.write_out(realm)
    us.write_out(realm)
    flush(realm)
    collect_garbage(realm)
    same(snap_top(g, realm), (norm(tm), norm(um)), f"content after the last garbage collection, history {log}")
    return str(log)


def typical(rng, sc):
    """the way the library is used: lookup with auto_create, add, write, flush, in several rounds"""
    g = Gen(rng)
    from dataladmetadatamodel.common import get_top_nodes_and_metadata_root_record
    realm = sc.repo()
    model = {}
    log = []
    for rnd in range(rng.randint(1, 4)):
        u, v = g.uuid(), rng.choice(["v1", "v2"])
        if (u, v) in model and False:
            pass
        tvl, us, mrr = get_top_nodes_and_metadata_root_record("git", realm, u, v, g.Path(""), g.Path(""), None, None, True)
        key = v
        files = model.setdefault(key, {"files": ("tree", {}), "level": None})
        for _ in range(rng.randint(0, 3)):
            p = g.path(3)
            if p in files["files"][1] or g.free(files["files"][1], p):
                ft = mrr.get_file_tree()
                if ft is None:
                    ft = g.FileTree()
                    mrr.set_file_tree(ft)
                run = g.run()
                ft.add_extractor_run(g.Path(p), *run[:4], g.EC(*run[4]), run[5])
                g.add_run(g.Metadata(), files["files"][1].setdefault(p, ("metadata", {})), run)
        if rng.random() < 0.5:
            md = mrr.get_dataset_level_metadata()
            run = g.run()
            if md is None:
                md = g.Metadata()
                mrr.set_dataset_level_metadata(md)
            md.add_extractor_run(*run[:4], g.EC(*run[4]), run[5])
            files["level"] = files["level"] or ("metadata", {})
            g.add_run(g.Metadata(), files["level"], run)
        log.append(f"round {u.int} {v}")
        tvl.write_out(realm)
        us.write_out(realm)
        flush(realm)
        collect_garbage(realm)
        tvl2, us2 = load_top(realm)
        for key, want in model.items():
            ts, pp, dt = tvl2.get_dataset_tree(key, g.Path(""))
            rec = dt.get_metadata_root_record(g.Path(""))
            got = g.snap(rec)
            same(got[4], norm(want["files"]), f"file tree of {key}, history {log}")
            same(got[3], norm(want["level"] or ("metadata", {})), f"dataset-level metadata of {key}, history {log}")
    return str(log)


def legacy(rng, sc):
    """flush converts legacy stores and keeps what was there"""
    g = Gen(rng)
    realm = sc.repo()

    def blob(t):
        return git(realm, "hash-object", "-w", "--stdin", stdin=t.encode()).decode().strip()

    def tree(entries):
        return git(realm, "mktree", stdin="".join(f"{f} {t} {h}\t{n}\n" for f, t, h, n in entries).encode()).decode().strip()
    trees, blobs = set(), set()
    for i in range(rng.randint(0, 3)):
        trees.add(tree([("100644", "blob", blob(f"t{i}"), f"n{i}")]))
    for i in range(rng.randint(0, 3)):
        blobs.add(blob(f"b{i}{rng.random()}"))
    if trees:
        git(realm, "update-ref", "refs/datalad/object-references/trees", tree([("040000", "tree", h, h) for h in trees]))
    if blobs:
        git(realm, "update-ref", "refs/datalad/object-references/blobs", tree([("100644", "blob", h, h) for h in blobs]))
    kept = set()
    if rng.random() < 0.5:
        from dataladmetadatamodel.mapper.gitmapper import objectreference as objr
        # a current store with entries and one foreign entry
        x = blob("foreign")
        sub = tree([("100644", "blob", x, "zz")])
        git(realm, "update-ref", "refs/datalad/object-references-2.0", tree([("040000", "tree", sub, "xxx"), ("100644", "blob", x, "yyy")]))
        kept.add(x)
    crash = rng.random() < 0.5
    tvl, tm = g.make_versionlist(True)
    tvl.write_out(realm)
    n = len(refs(realm))
    if crash:
        at = rng.randint(0, 12)
        with Gate() as gate:
            how = rng.choice(["fail", "crash"])
            gate.fail = lambda i, w: how if i == at else None
            try:
                flush(realm)
            except (Exception, Crash):
                pass
        r = refs(realm)
        for ref, content in (("refs/datalad/object-references/trees", trees), ("refs/datalad/object-references/blobs", blobs)):
            if content and ref not in r:
                check("refs/datalad/object-references-2.0" in r, "legacy store removed before the new one is published")
    if crash:
        collect_garbage(realm)
        for h in trees | blobs | kept:
            check(exists(realm, h), f"object {h} of a legacy store is lost")
    else:
        flush(realm)
        flush(realm)
        r = refs(realm)
        names = git(realm, "ls-tree", "-r", "-t", "--full-tree", "refs/datalad/object-references-2.0").decode().splitlines() \
            if "refs/datalad/object-references-2.0" in r else []
        known = {l.split()[2]: l.split("\t")[1] for l in names}
        for h in trees | blobs:
            check(h in known, f"legacy entry {h} is not in the new store")
            same(known[h].replace("/", ""), h, "path of a legacy entry")
        for ref in ("refs/datalad/object-references/trees", "refs/datalad/object-references/blobs"):
            check(ref not in r, f"{ref} was not removed")
        collect_garbage(realm)
        for h in trees | blobs | kept:
            check(exists(realm, h), f"object {h} of a legacy store is lost")
        same(g.snap(load_top(realm)[0]), norm(tm), "content")
    return f"{len(trees)} trees {len(blobs)} blobs {'crash' if crash else ''}"


def tree_update(rng, sc):
    """add_paths against a map"""
    from pathlib import Path
    from dataladmetadatamodel.mapper.gitmapper.treeupdater import EntryType, PathInfo, DirEntry, _get_dir, add_paths
    realm = sc.repo()
    rp = Path(realm)
    blobs = [git(realm, "hash-object", "-w", "--stdin", stdin=f"b{i}".encode()).decode().strip() for i in range(3)]
    tr = git(realm, "mktree", stdin=f"100644 blob {blobs[0]}\tx\n".encode()).decode().strip()
    inner = git(realm, "mktree", stdin=f"100644 blob {blobs[1]}\ty\n".encode()).decode().strip()
    content = {}        # path -> (type, hash) for blobs

    def listing(h):
        out = {}
        for l in git(realm, "ls-tree", "-r", "-z", h).decode().split("\0"):
            if l:
                meta, name = l.split("\t", 1)
                out[tuple(name.split("/"))] = meta.split()[2]
        return out
    sub = {tr: {("x",): blobs[0]}, inner: {("y",): blobs[1]}}
    names = ["a", "b", "aa", "c"]
    root, have = [], {}
    log = []
    for rnd in range(rng.randint(1, 4)):
        infos, bad = [], False
        leaf, dirs = {}, set()
        for _ in range(rng.randint(1, 5)):
            p = tuple(rng.choice(names) for _ in range(rng.randint(1, 4)))
            t = rng.random() < 0.25
            h = rng.choice([tr, inner]) if t else rng.choice(blobs)
            infos.append((p, h, t))
        # conflicts among the new entries
        for i, (p, h, t) in enumerate(infos):
            for j, (q, _, _) in enumerate(infos):
                if i != j and p == q[:len(p)]:
                    bad = True
        want = dict(have)
        for p, h, t in infos:
            # conflicts with existing ones
            for q in have:
                if q == p[:len(q)] and (len(q) < len(p) or t):
                    bad = True          # file where a directory is needed
                if p == q[:len(p)] and len(p) < len(q) and not t:
                    bad = True          # directory where a file is needed
            if t:
                for q in [q for q in want if q[:len(p)] == p]:
                    del want[q]
                for q, x in sub[h].items():
                    want[p + q] = x
            else:
                want[p] = h
        log.append(("/".join(infos[0][0]), len(infos), bad))
        before = objects(realm)
        try:
            new = add_paths(rp, [PathInfo(list(p), h, EntryType.Directory if t else EntryType.File) for p, h, t in infos], root)
        except ValueError:
            check(bad, f"consistent entries were rejected: {infos} on {have}")
            continue
        check(not bad, f"conflicting entries were accepted: {infos} on {have}")
        same(listing(new), want, f"tree after adding {infos} to {have}")
        have = want
        root = _get_dir(rp, new)
    return str(log)


def ref_store_paths(rng, sc):
    """each recorded object is found under a path derived from its hash; existing entries stay"""
    from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference, add_tree_reference
    realm = sc.repo()
    known = {}
    for rnd in range(rng.randint(1, 4)):
        new = {}
        for _ in range(rng.randint(0, 5)):
            c = f"{rng.random()}"
            h = git(realm, "hash-object", "-w", "--stdin", stdin=c.encode()).decode().strip()
            if rng.random() < 0.4:
                h = git(realm, "mktree", stdin=f"100644 blob {h}\tx\n".encode()).decode().strip()
                add_tree_reference(h)
            else:
                add_blob_reference(h)
            new[h] = 1
        if known and rng.random() < 0.5:
            # collisions of the first levels
            old = rng.choice(list(known))
            n = rng.choice([3, 6, 9])
            fake = old[:n] + "".join(rng.choice("0123456789abcdef") for _ in range(40 - n))
            add_blob_reference(fake)
            new[fake] = 1
        add_blob_reference("*None*")
        flush(realm)
        known.update(new)
        r = refs(realm)
        if known:
            lines = git(realm, "ls-tree", "-r", "-t", r["refs/datalad/object-references-2.0"]).decode().splitlines()
            got = {l.split("\t")[1].replace("/", ""): l.split()[2] for l in lines}
            for h in known:
                same(got.get(h), h, "recorded object in the store")
        before = r
        flush(realm)
        same(refs(realm), before, "flushing again changes nothing")
    return f"{len(known)} objects"


def two_realms(rng, sc):
    """write to A, write to B, flush both"""
    g = Gen(rng)
    a, b = sc.repo(), sc.repo()
    om = []
    for realm in (a, b):
        md, mm = g.make_metadata(2)
        mrr = g.MRR(g.uuid(), "v", md, None)
        vl = g.VersionList()
        vl.set_versioned_element("v", "1", g.Path(""), mrr)
        us = g.UUIDSet()
        us.set_version_list(g.uuid(), vl)
        tvl = g.TreeVersionList()
        om.append((realm, us, tvl, g.snap(us)))
    for realm, us, tvl, m in om:
        us.write_out(realm)
        tvl.write_out(realm)
    for realm, us, tvl, m in om:
        flush(realm)
    for realm, us, tvl, m in om:
        collect_garbage(realm)
        try:
            got = snap_top(g, realm)[1]
        except Exception as e:
            raise Violation(f"content of a realm is lost after interleaved writes to two realms: {type(e).__name__} {str(e)[:200]}",
                            finding="two-realms" if realm == b else None)
        same(got, m, "content")
    return "two realms"


def crash(rng, sc):
    """the state of the repository after each git command, and after each failure"""
    g = Gen(rng)
    ed = Edit(g, rng)
    realm = sc.repo()
    tvl, tm, us, um = top(g, rng)
    log = []
    if rng.random() < 0.7:
        tvl.write_out(realm)
        us.write_out(realm)
        flush(realm)
        log.append("initial state stored")
        for o, m in ((tvl, tm), (us, um)):
            for _ in range(rng.randint(0, 3)):
                part, pm, _ = ed.pick(o, m)
                log.append(f"{kind_of(g, part)}: {ed.change(part, pm)}")
    base = sc.dir + "/base"
    shutil.copytree(realm, base)
    old = snap_top(g, base)
    how = rng.choice(["observe", "fail", "crash", "fail"])
    step = rng.choice(["tvl", "us", "all"])
    new_tm, new_um = norm(tm), norm(um)
    states = []

    def act():
        if step in ("tvl", "all"):
            tvl.write_out(realm)
        if step in ("us", "all"):
            us.write_out(realm)
        if step == "all":
            flush(realm)

    def look(what):
        got = snap_top(g, realm)
        check(got[0] in (old[0], new_tm), f"{what}: the published version list is incomplete: {short(got[0])}, history {log}")
        check(got[1] in (old[1], new_um), f"{what}: the published set is incomplete: {short(got[1])}, history {log}")
        fsck_refs(realm, what, log)

    log.append(f"{how} {step}")
    with Gate() as gate:
        if how == "observe":
            busy = []

            def after(i, w):
                if busy or command(list(w))[0] not in ("update-ref", "mktree", "hash-object"):
                    return
                busy.append(1)
                try:
                    states.append(command(list(w))[0])
                    if command(list(w))[0] == "update-ref" or rng.random() < 0.15:
                        look(f"after {w[3:]}")
                finally:
                    busy.clear()
            gate.after = after
            act()
        else:
            count = Gate.__name__ and rng.randint(0, 25)
            writes = rng.random() < 0.5
            seen = [0]

            def fail(i, w):
                c = command(w)[0]
                if writes and c not in ("update-ref", "hash-object", "mktree"):
                    return None
                seen[0] += 1
                if seen[0] - 1 == count:
                    log.append(f"{how} at {c}")
                    return how
                return None
            gate.fail = fail
            try:
                act()
                done = True
            except (Exception, Crash) as e:
                done = False
            reached = seen[0] > count
    look("at the end")
    got = snap_top(g, realm)
    if how == "observe" or done:
        if step in ("tvl", "all"):
            same(got[0], new_tm, f"version list, history {log}")
        if step in ("us", "all"):
            same(got[1], new_um, f"set, history {log}")
        if how != "observe":
            check(not reached or step == "all", f"a failing git command was not reported, history {log}")
    else:
        # a repetition without a failure succeeds
        tvl.write_out(realm)
        us.write_out(realm)
        flush(realm)
        collect_garbage(realm)
        same(snap_top(g, realm), (norm(tm), norm(um)), f"content after repeating the failed write, history {log}")
    return str(log)


def fsck_refs(realm, what, log):
    for name, h in refs(realm).items():
        rc, out = git(realm, "rev-list", "--objects", "--missing=print", h, ok=False)
        missing = [l for l in out.decode().splitlines() if l.startswith("?")]
        if rc != 0:
            # the reference points to a blob
            check(exists(realm, h), f"{what}: {name} points to a missing object, history {log}")
        check(not missing, f"{what}: {name} refers to missing objects {missing}, history {log}")


# ------------------------------------------------------------------ C11

HOLDER = """
import sys, time, logging
from fasteners import InterProcessLock
l = InterProcessLock(sys.argv[1])
print(l.acquire(blocking=False))
"""


def lock_free(path):
    out = subprocess.run([PYTHON, "-c", HOLDER, path], stdout=subprocess.PIPE).stdout.decode().strip()
    return out == "True"


def lock(rng, sc):
    from pathlib import Path
    from dataladmetadatamodel.mapper.gitmapper import utils
    realms = [Path(sc.repo()), Path(sc.repo())]
    if rng.random() < 0.3:
        p = Path(sc.dir) / "not-yet-a-repository"
        p.mkdir()
        realms.append(p)
    depth = {r: 0 for r in realms}
    files = {r: str(r / ".git" / utils.GIT_MAPPER_LOCK_FILE_NAME) for r in realms}
    log = []

    def look():
        r = rng.choice(realms)
        if depth[r] or os.path.isdir(r / ".git"):
            same(lock_free(files[r]), depth[r] == 0, f"lock of {r} free, history {log}")
    for _ in range(rng.randint(3, 8)):
        r = rng.choice(realms)
        x = rng.random()
        if x < 0.12:
            # the lock file cannot be opened
            log.append(f"failing lock {realms.index(r)}")
            original = utils.InterProcessLock.acquire

            def acquire(*args, **kwargs):
                raise OSError("injected")
            utils.InterProcessLock.acquire = acquire
            try:
                utils.lock_backend(r)
                check(depth[r] > 0, f"a failing acquisition is not reported, history {log}")
                depth[r] += 1
            except OSError:
                check(depth[r] == 0, f"acquired again, history {log}")
            finally:
                utils.InterProcessLock.acquire = original
        elif x < 0.45:
            utils.lock_backend(r)
            depth[r] += 1
            log.append(f"lock {realms.index(r)}")
        elif x < 0.8:
            log.append(f"unlock {realms.index(r)}")
            try:
                utils.unlock_backend(r)
                ok = True
            except AssertionError:
                ok = False
            check(ok == (depth[r] > 0), f"unlock: {ok}, history {log}")
            if ok:
                depth[r] -= 1
        else:
            log.append(f"with {realms.index(r)}")
            try:
                with utils.locked_backend(r):
                    check(not lock_free(files[r]), f"not locked inside of the block, history {log}")
                    if rng.random() < 0.5:
                        raise KeyError("x")
            except KeyError:
                log.append("raised")
        look()
    for r in realms:
        while depth[r]:
            utils.unlock_backend(r)
            depth[r] -= 1
        if os.path.isdir(r / ".git"):
            check(lock_free(files[r]), f"lock is still held at the end, history {log}")
    return str(log)


def flush_lock(rng, sc):
    """the store is read, extended and published under the lock"""
    from dataladmetadatamodel.mapper.gitmapper import utils
    from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference
    from pathlib import Path
    realm = sc.repo()
    f = os.path.join(realm, ".git", utils.GIT_MAPPER_LOCK_FILE_NAME)
    for rnd in range(2):
        h = git(realm, "hash-object", "-w", "--stdin", stdin=b"x%d" % rnd).decode().strip()
        add_blob_reference(h)
        seen = []
        with Gate() as gate:
            def fail(i, w):
                c, a = command(w)
                if c in ("cat-file", "ls-tree", "mktree", "update-ref") and "refs/datalad/object-references/trees" not in a \
                        and "refs/datalad/object-references/blobs" not in a:
                    gate_saved, subprocess.Popen = subprocess.Popen, lib.REAL_POPEN
                    try:
                        seen.append((c, lock_free(f)))
                    finally:
                        subprocess.Popen = gate_saved
                return None
            gate.fail = fail
            if rng.random() < 0.3:
                utils.lock_backend(Path(realm))
                flush(realm)
                check(not lock_free(f), "a flush inside of a locked region releases the lock")
                utils.unlock_backend(Path(realm))
            else:
                flush(realm)
        check(any(c == "update-ref" for c, _ in seen), "the store was not published")
        for c, free in seen:
            check(not free, f"{c} without the lock: {seen}")
        check(lock_free(f), "the lock is held after the flush")
    return "flush"


def concurrent_flush(rng, sc):
    """several processes flush at the same time; nothing is lost"""
    realm = sc.repo()
    n = 4
    code = ("import sys, os, time, logging\nlogging.disable(50)\nfrom pathlib import Path\n"
            "from dataladmetadatamodel.mapper.gitmapper.objectreference import add_blob_reference, flush_object_references\n"
            "for h in sys.argv[2:]:\n    add_blob_reference(h)\n    flush_object_references(Path(sys.argv[1]))\n")
    hs = [git(realm, "hash-object", "-w", "--stdin", stdin=f"{rng.random()}{i}".encode()).decode().strip() for i in range(n * 3)]
    ps = [lib.REAL_POPEN([PYTHON, "-c", code, realm] + hs[i::n], env=dict(os.environ, PYTHONPATH=os.environ.get("PYVC_REPO", "/repo")),
                         stderr=subprocess.PIPE) for i in range(n)]
    for p in ps:
        _, err = p.communicate(timeout=80)
        check(p.returncode == 0, f"flush failed: {err.decode()[-400:]}")
    lines = git(realm, "ls-tree", "-r", "-t", "refs/datalad/object-references-2.0").decode().splitlines()
    got = {l.split()[2] for l in lines}
    for h in hs:
        check(h in got, f"object {h} of a concurrent flush is lost")
    return f"{len(hs)} objects"


# ------------------------------------------------------------------ C12

def remote(rng, sc):
    g = Gen(rng)
    ed = Edit(g, rng)
    urls = ["https://example.com/", "http://example.com/", "ssh://host/", "git@host:", "git://x/"]
    repos = [sc.repo(), sc.repo()]
    os.environ["GIT_CONFIG_COUNT"] = "3"
    pre = rng.choice(["https://example.invalid/", "http://example.invalid/", "ssh://host.invalid/", "git@host.invalid:", "git://x.invalid/"])
    os.environ["GIT_CONFIG_KEY_0"], os.environ["GIT_CONFIG_VALUE_0"] = f"url.file://{sc.dir}/.insteadOf", pre
    os.environ["GIT_CONFIG_KEY_1"], os.environ["GIT_CONFIG_VALUE_1"] = "protocol.file.allow", "always"
    os.environ["GIT_CONFIG_KEY_2"], os.environ["GIT_CONFIG_VALUE_2"] = "uploadpack.allowAnySHA1InWant", "true"
    if rng.random() < 0.5:
        # similar names
        names = rng.choice([("Repo", "repo"), ("repo", "repo.x"), ("r", "R")])
        for i, n in enumerate(names):
            os.rename(repos[i], os.path.join(sc.dir, n))
            repos[i] = os.path.join(sc.dir, n)
    models = []
    for r in repos:
        tvl, tm, us, um = top(g, rng)
        tvl.write_out(r)
        us.write_out(r)
        models.append([tvl, tm, us, um])
    url = [pre + os.path.basename(r) for r in repos]
    log = [pre]
    caches = [set(), set()]

    def digest(r):
        return refs(r), objects(r)
    for step in range(rng.randint(1, 3)):
        i = rng.randrange(2)
        before = [digest(r) for r in repos]
        with Gate() as gate:
            got = snap_top(g, url[i])
        log.append(f"read {i}")
        same(got, (norm(models[i][1]), norm(models[i][3])), f"content of the remote {i}, history {log}")
        same([digest(r) for r in repos], before, f"the remote repositories after reading, history {log}")
        for w in gate.log:
            d = w[w.index("--git-dir") + 1] if "--git-dir" in w else (
                w[w.index("-C") + 1] if "-C" in w else next(
                    (x[10:] for x in w if x.startswith("--git-dir=")), w[-1] if command(w)[0] == "init" else None))
            check(d is None or os.path.abspath(d).startswith(os.environ["XDG_CACHE_HOME"]),
                  f"command outside of the cache while reading a remote: {w}")
            if d is not None:
                caches[i].add(os.path.abspath(d))
                check(os.path.abspath(d) not in caches[1 - i], f"two remotes use one cache repository: {url}")
        # change the remote through its local path
        if rng.random() < 0.6:
            tvl, tm, us, um = models[i]
            for o, m in ((tvl, tm), (us, um)):
                part, pm, _ = ed.pick(o, m)
                log.append(f"change {i}: {ed.change(part, pm)}")
                o.write_out(repos[i])
        # writing is refused
        k = rng.randrange(2)
        o, m = g.make(rng.choice(g.KINDS))
        before = [digest(r) for r in repos]
        kk = kind_of(g, o)
        if rng.random() < 0.4 and kk != "text":
            o.write_out(sc.repo())
        saved = [o.is_saved_on(x) for x in repos + url]
        loc = o.reference.location if o.reference else None
        try:
            o.write_out(url[k], force_write=rng.random() < 0.5)
            ok = True
        except Exception:
            ok = False
        check(not ok, f"writing a {kk} to a remote realm succeeded, history {log}")
        same([digest(r) for r in repos], before, "repositories after a refused write")
        same([o.is_saved_on(x) for x in repos + url], saved, "saved state after a refused write")
        same(o.reference.location if o.reference else None, loc, "reference after a refused write")
        same(g.snap(o), norm(m), "content after a refused write")
        # a refused write leaves the object writable
        r2 = sc.repo()
        same(g.snap(g.load(kk, r2, o.write_out(r2))), norm(m), "written somewhere else after a refused write")
        # modified object loaded from a remote
        tvl = load_top(url[i])[0]
        if tvl is not None:
            e, em = g.make_datasettree(1)
            tvl.set_versioned_element("new", "1", g.Path("n"), e)
            try:
                tvl.write_out()
                ok = True
            except Exception:
                ok = False
            check(not ok, "writing a modified object back to its remote realm succeeded")
            same([digest(r) for r in repos], before, "repositories after a refused write")
    from dataladmetadatamodel.mapper.reference import Reference
    for u in url + ["https:x", "git:x", "ssh:x", "git@x"]:
        check(Reference.is_remote(u) and not Reference.is_local(u), f"{u} is remote")
    for u in repos + ["git", "/https:/x", "httpx://", "./git@x", "file:///x", "sshx:", "http"]:
        check(not Reference.is_remote(u) and Reference.is_local(u), f"{u} is local")
    return str(log)


# ------------------------------------------------------------------ C13

def batch(rng, sc):
    from dataladmetadatamodel.mapper.gitmapper.gitblobcache import GitBlobCache
    from dataladmetadatamodel.mapper.gitmapper.gitbackend.subprocess import git_save_str
    g = Gen(rng)
    a, b = sc.repo(), sc.repo()
    maxsize = rng.choice([1, 2, 3, 5, 2000])
    cache = GitBlobCache(a, maxsize)
    want = []
    log = [f"maxsize {maxsize}"]
    dup = []

    def store():
        blob = rng.choice(dup) if dup and rng.random() < 0.25 else (g.text() if rng.random() < 0.7 else
                                                                    bytes(rng.randrange(256) for _ in range(rng.randint(0, 20))))
        dup.append(blob)
        return blob
    for rnd in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 8)):
            blob = store()
            h = cache.cache_blob(a, blob)
            data = blob.encode() if isinstance(blob, str) else blob
            h2 = git(b, "hash-object", "-w", "--stdin", stdin=data).decode().strip()
            same(h, h2, f"id of {blob!r}")
            if isinstance(blob, str):
                same(git_save_str(b, blob), h, f"id of the immediately written {blob!r}")
            want.append((h, data))
        if rng.random() < 0.35 and want:
            log.append("failing flush")
            with Gate() as gate:
                gate.fail = lambda i, w: "fail"
                pending = len(cache.cached_objects) if hasattr(cache, "cached_objects") else None
                try:
                    cache.flush()
                    failed = False
                except RuntimeError:
                    failed = True
            if pending:
                check(failed, "a failing flush was not reported")
        cache.flush()
        log.append("flush")
        same(objects(a), objects(b), f"objects, history {log}")
        for h, data in want:
            same(git(a, "cat-file", "blob", h), data, "stored content")
        n = len(objects(a))
        with Gate() as gate:
            cache.flush()
        same([command(w) for w in gate.log if command(w)[0] == "hash-object"], [], "commands of a second flush")
    return str(log) + f" {len(want)} blobs"


def batch_tree(rng, sc):
    """file trees are written through the cache, also when something fails"""
    g = Gen(rng)
    ed = Edit(g, rng)
    a, b = sc.repo(), sc.repo()
    ft, m = g.make_filetree(rng.randint(1, 5))
    log = []
    mode = rng.choice(["plain", "fail", "fail", "crash", "small"])
    if mode == "small":
        from dataladmetadatamodel.mapper.gitmapper import gitblobcache
        init = gitblobcache.GitBlobCache.__init__
        size = rng.choice([1, 2, 3])
        gitblobcache.GitBlobCache.__init__ = lambda self, realm, maxsize=size: init(self, realm, size)
    if mode in ("fail", "crash"):
        at = rng.randint(0, 6)
        with Gate() as gate:
            def fail(i, w):
                if i == at:
                    log.append(f"{mode} at {command(w)}")
                    return mode
            gate.fail = fail
            try:
                ft.write_out(a)
                ok = True
            except (Exception, Crash):
                ok = False
        check(ok == (not log), f"failure was not reported: {log}")
        if not ok:
            check(not ft.is_saved_on(a), f"tree counts as saved after a failed write {log}")
            # no metadata object that is not stored counts as saved
            for p, e in ft.get_paths_recursive():
                if e.is_saved_on(a):
                    same(g.snap(g.load("metadata", a, e.reference)), norm(m[1][str(p)]), f"metadata at {str(p)!r} counts as saved {log}")
            try:
                ft.purge()
                check(False, "unsaved tree was purged")
            except ValueError:
                pass
            same(g.snap(ft), norm(m), f"content after a failed write {log}")
    ref = ft.write_out(a)
    same(g.snap(g.load("filetree", a, ref)), norm(m), f"file tree {log}")
    # immediate writes
    mt = g.MTreeNode(g.Metadata)
    for p, em in m[1].items():
        md = g.load("metadata", a, dict(ft.get_paths_recursive())[g.Path(p)].reference)
        mt.add_child_at(md.deepcopy(new_destination=b), g.Path(p))
    r2 = mt.write_out(b)
    same(r2.location, ref.location, f"reference of the immediately written tree {log}")
    if mode != "fail" and mode != "crash":
        same({h for h in objects(a)} >= {h for h in objects(b)}, True, "objects")
    # the realm can be written again
    part, pm, _ = ed.pick(ft, m)
    ed.change(part, pm)
    same(g.snap(g.load("filetree", a, ft.write_out(a))), norm(m), f"file tree, second write {log}")
    return f"{mode} {log} {short(m, 100)}"


# ------------------------------------------------------------------ C14

def toplevel(rng, sc):
    g = Gen(rng)
    import uuid
    from dataladmetadatamodel.common import (get_metadata_root_record_from_top_nodes, get_top_level_metadata_objects,
                                             get_top_nodes_and_metadata_root_record)
    realm = sc.repo()
    log = []
    have = {}           # (root version, prefix, dataset path) -> [uuid, version]
    sets = {}           # uuid -> {(version, prefix)}
    flushes = 0
    tvl = us = None
    start = rng.choice(["none", "tvl", "us", "both"])
    em = {}
    if start in ("tvl", "both"):
        t, tm = g.make_versionlist(True)
        t.write_out(realm)
    else:
        tm = ("versions", {})
    if start in ("us", "both"):
        u0, um = g.make_uuidset()
        u0.write_out(realm)
    else:
        um = ("uuids", {})
    log.append(start)
    old_t, old_u = norm(copy_model(tm)), norm(copy_model(um))
    same(snap_top(g, realm), (old_t if start in ("tvl", "both") else None, old_u if start in ("us", "both") else None), "start")
    for step in range(rng.randint(1, 4)):
        root, rv, pp = g.uuid(), rng.choice(["v1", "v2", "r"]), rng.choice(["", "a", "p/q"])
        sub = rng.random() < 0.5
        sp = rng.choice(["sub", "a/b", "s1"]) if sub else ""
        sid, sv = (uuid.UUID(int=rng.choice([7, 8])), rng.choice(["s1", "v1"])) if sub else (None, None)
        args = ("git", realm, root, rv, g.Path(pp), g.Path(sp), sid, sv)
        ds, dv = (sid, sv) if sub else (root, rv)
        dpp = "" if sub else pp
        log.append(f"{'sub ' + sp if sub else 'root'} {ds.int} {dv} root {root.int} {rv} prefix {pp!r}")
        # what is stored
        st, su = snap_top(g, realm)
        st, su = st or ("versions", {}), su or ("uuids", {})
        trees = st[1].get((rv, pp))
        record = trees[1][1].get(sp) if trees else None
        # without automatic creation
        before = (refs(realm), objects(realm))
        t, u, mrr = get_top_nodes_and_metadata_root_record(*args, False)
        if mrr is not None:
            same(g.snap(mrr), record, f"record found, history {log}")
        elif record is not None:
            # both top-level objects have to know it
            known = ds in su[1] and (not sub or root in su[1])
            check(not known, f"stored record was not found, history {log}")
        if t is not None:
            check(t.is_saved_on(realm) and u.is_saved_on(realm), f"lookup modified something, history {log}")
            same((g.snap(t), g.snap(u)), (st, su), f"content after a lookup, history {log}")
        same((refs(realm), objects(realm)), before, "repository after a lookup")
        if rng.random() < 0.3:
            continue
        # with automatic creation
        t, u, mrr = get_top_nodes_and_metadata_root_record(*args, True)
        check(t is not None and u is not None and mrr is not None, f"nothing created, history {log}")
        if record is not None:
            same(g.snap(mrr), record, f"existing record, history {log}")
        else:
            same((mrr.dataset_identifier, mrr.dataset_version), (ds, dv), f"identifier and version of the new record, history {log}")
        if rng.random() < 0.5:
            md = mrr.get_dataset_level_metadata()
            if md is not None:
                md.add_extractor_run(1.0, "e", "a", "m", g.EC("1", {}), {"step": step})
        mine = g.snap(mrr)
        for rnd in range(2):
            ts, q, dt = t.get_dataset_tree(rv, g.Path(pp))
            same(str(q), pp, "prefix path")
            same(g.snap(dt.get_metadata_root_record(g.Path(sp))), mine, f"record in the dataset tree, history {log}")
            if rnd == 0:
                check(dt.get_metadata_root_record(g.Path(sp)) is mrr, "the record in the tree is the returned one")
            check(ds in u.uuids(), f"identifier in the set, history {log}")
            vl = u.get_version_list(ds)
            check((dv, dpp) in [(v, str(x)) for v, x in vl.versions_and_prefix_paths()], f"version in the set, history {log}")
            own = su[1].get(ds, ("versions", {}))[1].get((dv, dpp))
            if own is None:
                same(g.snap(vl.get_versioned_element(dv, g.Path(dpp))[2]), mine, f"record in the set, history {log}")
            if sub:
                rr = dt.get_metadata_root_record(g.Path(""))
                check(rr is not None, f"root record in the tree, history {log}")
                if not (trees and "" in trees[1][1]):
                    same((rr.dataset_identifier, rr.dataset_version), (root, rv), f"root record, history {log}")
                check(root in u.uuids(), f"root identifier in the set, history {log}")
                check((rv, pp) in [(v, str(x)) for v, x in u.get_version_list(root).versions_and_prefix_paths()],
                      f"root version in the set, history {log}")
            # everything else is kept
            nt, nu = g.snap(t), g.snap(u)
            for k, (ts, tr) in st[1].items():
                check(k in nt[1] and nt[1][k][0] == ts, f"entry {k} of the version list is lost, history {log}")
                for p, x in tr[1].items():
                    if not (k == (rv, pp) and p == sp):
                        same(nt[1][k][1][1].get(p), x, f"record {k} {p!r} in the version list, history {log}")
            for k, l in su[1].items():
                check(k in nu[1], f"entry {k} of the set is lost, history {log}")
                for vk, (ts, x) in l[1].items():
                    check(vk in nu[1][k][1] and nu[1][k][1][vk][0] == ts, f"entry {k} {vk} of the set is lost, history {log}")
                    if record is None:
                        same(nu[1][k][1][vk][1], x, f"record {k} {vk} in the set, history {log}")
            if rnd == 0:
                t.write_out(realm)
                u.write_out(realm)
                flush(realm)
                t, u = get_top_level_metadata_objects("git", realm)
    return str(log)


# ------------------------------------------------------------------ C15

def failing(rng, sc):
    """each failing git command is reported with its output"""
    from dataladmetadatamodel.mapper.gitmapper.gitbackend import subprocess as sp
    g = Gen(rng)
    realm = sc.repo(odd=rng.choice(["", " with space", "'quote", "$HOME", ";touch x", "\u00fc", "*"]))
    h = git(realm, "hash-object", "-w", "--stdin", stdin=b"content").decode().strip()
    t = git(realm, "mktree", stdin=f"100644 blob {h}\tn\n".encode()).decode().strip()
    calls = {
        "git_load_str": lambda: sp.git_load_str(realm, h),
        "git_load_json": lambda: sp.git_load_json(realm, h),
        "git_read_tree_node": lambda: sp.git_read_tree_node(realm, t),
        "git_ls_tree": lambda: sp.git_ls_tree(realm, t),
        "git_ls_tree_recursive": lambda: sp.git_ls_tree_recursive(realm, t, rng.random() < 0.5),
        "git_save_str": lambda: sp.git_save_str(realm, "x"),
        "git_save_json": lambda: sp.git_save_json(realm, {"a": 1}),
        "git_save_file_list": lambda: sp.git_save_file_list(realm, [os.path.join(realm, ".git", "HEAD")]),
        "git_save_tree_node": lambda: sp.git_save_tree_node(realm, [("100644", "blob", h, "n")]),
        "git_save_tree": lambda: sp.git_save_tree(realm, {("100644", "blob", h, "n")}),
        "git_update_ref": lambda: sp.git_update_ref(realm, "refs/x/y", h),
        "git_delete_ref": lambda: sp.git_delete_ref(realm, "refs/x/y"),
        "git_init": lambda: sp.git_init(os.path.join(sc.dir, "new")),
        "git_fetch_reference": lambda: sp.git_fetch_reference(realm, realm, "refs/x/y", "refs/x/z"),
        "git_fetch_object": lambda: sp.git_fetch_object(realm, realm, h),
    }
    name = rng.choice(list(calls))
    r0, o0 = refs(realm), objects(realm)
    with Gate() as gate:
        gate.fail = lambda i, w: "fail"
        gate.code = rng.choice([1, 2, 128, 255, -9, -15, -13])
        gate.stdout = rng.choice([b"", b"partial output\n", h.encode() + b"\n", b"a\nb\n"])
        gate.stderr = rng.choice([b"", b"fatal: bad thing \xc3\xbc\n"])
        try:
            v = calls[name]()
            ok = True
        except RuntimeError as e:
            ok = False
            text = str(e)
            out, err = getattr(e, "stdout", None), getattr(e, "stderr", None)
        except Exception as e:
            raise Violation(f"{name}: failure reported as {type(e).__name__}: {e}")
    check(not ok, f"{name}: failure (exit {gate.code}) was swallowed, result {v if ok else ''}")
    check(gate.stdout.decode() in text and gate.stderr.decode() in text, f"{name}: the error does not carry the output: {text!r}")
    check(not gate.shell, f"{name}: a shell was used")
    with Gate() as gate:
        gate.fail = lambda i, w: "fail"
        same(sp.git_object_exists_locally(realm, h), False, "probe with a failing command")
    same(sp.git_object_exists_locally(realm, h), True, "probe of an existing object")
    same(sp.git_object_exists_locally(realm, "0" * 39 + "1"), False, "probe of a missing object")
    # exact content
    for _ in range(3):
        text = g.text()
        x = sp.git_save_str(realm, text)
        same(git(realm, "cat-file", "blob", x), text.encode(), "stored bytes")
        same(sp.git_load_str(realm, x), text, "loaded text")
        v = g.value()
        same(sp.git_load_json(realm, sp.git_save_json(realm, v)), v, "loaded JSON")
    f = os.path.join(sc.dir, "file")
    data = bytes(rng.randrange(256) for _ in range(30)) + b"\r\n"
    with open(f, "wb") as fd:
        fd.write(data)
    with open(os.path.join(realm, ".gitattributes"), "w") as fd:
        fd.write("* text eol=lf\n")
    same(git(realm, "cat-file", "blob", sp.git_save_file_list(realm, [f])[0]), data, "bytes of a stored file")
    sp.git_update_ref(realm, "refs/x/y", h)
    same(refs(realm).get("refs/x/y"), h, "updated reference")
    sp.git_delete_ref(realm, "refs/x/y")
    same(refs(realm).get("refs/x/y"), None, "deleted reference")
    check(not os.path.exists(os.path.join(sc.dir, "x")) and not os.path.exists("x"), "a shell interpreted the repository path")
    return f"{name} {os.path.basename(realm)}"


def failing_objects(rng, sc):
    """an operation on objects in which one git command fails raises"""
    g = Gen(rng)
    kind = rng.choice(g.KINDS)
    o, m = g.make(kind)
    realm = sc.repo()
    store = rng.random() < 0.5
    ref = None
    if not store:
        ref = o.write_out(realm)
        o = g.load(kind, realm, ref)
    count = [0]
    with Gate() as gate:
        (o.write_out(sc.repo()) if store else g.snap(o))
        total = len(gate.log)
    if total == 0:
        return f"{kind} without commands"
    if store:
        o, m = g.make(kind)
    else:
        o = g.load(kind, realm, ref)
    at = rng.randrange(total)
    hit = []
    with Gate() as gate:
        def fail(i, w):
            if i == at:
                hit.append(command(w))
                return "fail"
        gate.fail = fail
        try:
            v = o.write_out(realm) if store else g.snap(o)
            ok = True
        except RuntimeError:
            ok = False
    check(not (ok and hit), f"{kind}: the failure of {hit} was swallowed")
    if store:
        check(ok or not o.is_saved_on(realm) or not hit, f"{kind} counts as saved after the failure of {hit}")
        if ok or True:
            same(g.snap(g.load(kind, realm, o.write_out(realm))), norm(m), f"{kind} written after a failure of {hit}")
    return f"{kind} {hit}"


# ------------------------------------------------------------------ C16

def paths(rng, sc):
    from dataladmetadatamodel.metadatapath import MetadataPath as P
    parts = ["a", "b", "..", ".", "", "a b", "\u00fc", "\\", "a\\b", "...", "-", "\n"]

    def arg():
        n = rng.randint(0, 4)
        s = "/".join(rng.choice(parts) for _ in range(n))
        return "/" * rng.choice([0, 0, 1, 2, 3]) + s + "/" * rng.choice([0, 0, 1])
    for _ in range(30):
        args = [arg() for _ in range(rng.randint(0, 3))]
        p = P(*args)
        s = str(p)
        check(isinstance(p, P), f"type of P{args}")
        check(not p.is_absolute() and not s.startswith("/"), f"absolute path P{args}: {s!r}")
        same(len(p), len(p.parts), f"length of P{args}")
        # elements as given, after the last absolute argument
        last = max([i for i, a in enumerate(args) if a.startswith("/")], default=0)
        want = tuple(x for a in args[last:] for x in a.split("/") if x not in ("", "."))
        same(tuple(p.parts), want, f"elements of P{args}")
        same(s, "/".join(want), f"string form of P{args}")
        check(P(s) == p and hash(P(s)) == hash(p), f"P(str(p)) of P{args}")
        check(P(*p.parts) == p, f"P(*parts) of P{args}")
        check(P("/".join(p.parts)) == p, f"P(joined parts) of P{args}")
        q = P(arg())
        j = p / q
        check(isinstance(j, P) and not j.is_absolute(), f"join {p!r} {q!r}: {j!r}")
        same(tuple(j.parts), tuple(p.parts) + tuple(q.parts), f"join {p!r} {q!r}")
        t = arg()
        j = p / t
        check(isinstance(j, P) and not j.is_absolute() and not str(j).startswith("/"), f"join {p!r} / {t!r}: {j!r}")
        if not t.startswith("/"):
            same(tuple(j.parts), tuple(p.parts) + tuple(P(t).parts), f"join {p!r} / {t!r}")
        jj = p.joinpath(t)
        check(not jj.is_absolute(), f"joinpath {p!r} {t!r}: {jj!r}")
        check(not p.parent.is_absolute(), "parent")
        import copy, pickle
        check(copy.copy(p) == p and copy.deepcopy(p) == p, "copies")
    for r in (P(), P(""), P("."), P("/"), P("./"), P("//"), P("", "")):
        check(len(r) == 0 and str(r) == "" and r == P("") and r == P(".") and hash(r) == hash(P("")), f"root path {r!r}")
    return "paths"


# ------------------------------------------------------------------ C17

def sources(rng, sc):
    import io
    import tempfile
    from pathlib import Path
    from dataladmetadatamodel.metadatasource import ImmediateMetadataSource, LocalGitMetadataSource, MetadataSource
    g = Gen(rng)
    a = sc.repo(odd=rng.choice(["", " with space", "'q", "$HOME", ";touch x", "\u00fc", "\"", "&& false"]))
    b = sc.repo(odd=rng.choice(["", " x y", "'q", "`touch y`"]))
    data = rng.choice([b"", b"\n", b"line\r\n", bytes(rng.randrange(256) for _ in range(50)), b"\xff\xfe\x00", b"text", b"x" * 70000])
    h = git(a, "hash-object", "-w", "--stdin", stdin=data).decode().strip()
    s = LocalGitMetadataSource(Path(a), rng.choice([h, h + "\n", " " + h]))
    if rng.random() < 0.5:
        s = MetadataSource.from_json_str(s.to_json_str())
    f = os.path.join(sc.dir, "out")
    with open(f, "wb") as fd:
        s.write_object_to(fd)
    with open(f, "rb") as fd:
        same(fd.read(), data, "delivered bytes")
    same(s.copy_object_to(Path(b)), h, "id of the copy")
    same(git(b, "cat-file", "blob", h), data, "copied bytes")
    check(not os.path.exists("x") and not os.path.exists("y"), "a shell interpreted a repository path")
    # failures
    bad = LocalGitMetadataSource(Path(a), "0" * 39 + "1")
    c = sc.repo()
    for what in (lambda: bad.copy_object_to(Path(c)), lambda: bad.write_object_to(open(f, "wb"))):
        try:
            what()
            ok = True
        except Exception:
            ok = False
        check(not ok, "the source of a missing object was delivered")
    same(objects(c), set(), "objects after a failed copy")
    at = rng.randrange(2)
    with Gate() as gate:
        gate.fail = lambda i, w: "fail" if i == at else None
        gate.stdout = rng.choice([b"", h.encode() + b"\n"])
        try:
            s.copy_object_to(Path(c))
            ok = True
        except Exception:
            ok = False
    check(not ok, "a failing copy was reported as success")
    # immediate sources
    v = g.value(3)
    im = ImmediateMetadataSource(v)
    out = io.StringIO()
    im.write_object_to(out)
    same(json.loads(out.getvalue()), v, "delivered value")
    back = MetadataSource.from_json_str(im.to_json_str())
    check(type(back) is ImmediateMetadataSource and back == im, "immediate source from JSON")
    same(back.content, v, "content from JSON")
    v2 = {"l": [1, {"x": 2}], "d": {}}
    im2 = ImmediateMetadataSource(v2)
    cp = im2.deepcopy()
    check(cp == im2 and cp is not im2, "copy of an immediate source")
    v2["l"][1]["x"] = 3
    v2["d"]["y"] = 1
    same(cp.content, {"l": [1, {"x": 2}], "d": {}}, "copy after changing the original")
    # no source for other documents
    docs = [im.to_json_obj(), s.to_json_obj()]
    for d in docs:
        same(type(MetadataSource.from_json_obj(d)).__name__, d["@"]["type"], "type of the source")
        for k in list(d):
            x = dict(d)
            del x[k]
            try:
                r = MetadataSource.from_json_obj(x)
            except Exception:
                continue
            check(r is None, f"document without {k!r} gives a source: {x}")
        for t in ("", "Foreign", None, "immediateMetadataSource", 5):
            r = MetadataSource.from_json_obj(dict(d, metadata_source_type=t))
            check(r is None, f"document with source type {t!r} gives a source")
        other = "ImmediateMetadataSource" if "Local" in d["metadata_source_type"] else "LocalGitMetadataSource"
        try:
            r = MetadataSource.from_json_obj(dict(d, metadata_source_type=other))
        except Exception:
            r = None
        check(r is None, "document with the marker of another source type gives a source")
    a1, a2 = LocalGitMetadataSource(Path("/a"), "x"), LocalGitMetadataSource(Path("/b"), "x")
    check(a1 != a2 and a1 != LocalGitMetadataSource(Path("/a"), "y") and a1 == LocalGitMetadataSource(Path("/a"), "x"), "equality")
    check(im != a1 and ImmediateMetadataSource(1) != ImmediateMetadataSource(2), "equality")
    return f"{len(data)} bytes {short(v, 60)}"


SUITES = {f.__name__: f for f in (
    roundtrip, rebuild, odd_entries, tracking, deep_change, shared, tree_model, proxy_model, list_model, set_model, runs, equality,
    json_inverse, deepcopy, reachable, typical, legacy, tree_update, ref_store_paths, two_realms, crash, lock, flush_lock,
    concurrent_flush, remote, batch, batch_tree, toplevel, failing, failing_objects, paths, sources)}

# number of cases of the quick check
PLAN = {
    "C01": [("roundtrip", 120), ("rebuild", 20), ("odd_entries", 20), ("typical", 10)],
    "C02": [("tracking", 90), ("deep_change", 60), ("shared", 20), ("batch_tree", 20)],
    "C03": [("tracking", 90), ("deep_change", 60), ("list_model", 15)],
    "C04": [("tree_model", 120), ("proxy_model", 60)],
    "C05": [("list_model", 80), ("set_model", 60)],
    "C06": [("runs", 80), ("equality", 150)],
    "C07": [("json_inverse", 300)],
    "C08": [("deepcopy", 150)],
    "C09": [("reachable", 40), ("typical", 20), ("legacy", 20), ("tree_update", 80), ("ref_store_paths", 20), ("two_realms", 1)],
    "C10": [("crash", 80), ("legacy", 40), ("batch_tree", 20)],
    "C11": [("lock", 40), ("flush_lock", 6), ("concurrent_flush", 3)],
    "C12": [("remote", 30)],
    "C13": [("batch", 60), ("batch_tree", 60)],
    "C14": [("toplevel", 70)],
    "C15": [("failing", 100), ("failing_objects", 60)],
    "C16": [("paths", 60)],
    "C17": [("sources", 60)],
}
