"""Which harnesses decide which property, and what is assumed."""
import importlib

MODULES = {
    "C01": ["c01"],
    "C02": ["c02", "c01"],
    "C03": ["c03"],
    "C04": ["c04"],
    "C05": ["c05"],
    "C06": ["c06"],
    "C07": ["c07"],
    "C08": ["c08"],
    "C09": ["c09"],
    "C10": ["c09", "c10"],
    "C11": ["c11"],
    "C12": ["c12"],
    "C13": ["c13"],
    "C14": ["c14"],
    "C15": ["c15"],
    "C16": ["c16"],
    "C17": ["c17"],
}

LEVEL = {}

TRUSTED = [
    "the verifier itself: pyvc (symbolic execution of the Python AST, its loop rule and its model of the built-in types)",
    "z3 5.3.2 and cvc5 1.1.2",
    "machine integers: Python integers are mathematical integers",
    "the contracts of the standard library and of git in pyvc/externals.py and pyvc/gitmodel.py",
]

NOTE = {}
NOTE_ALL = (
    "Every obligation is generated from /repo's current source and discharged for all inputs (no bound) by z3 or cvc5; "
    "trusted: the verifier pyvc itself and the assumed contracts of git and of the standard library (listed in the "
    "evidence). Code outside of the verified subset and the assumed contracts are covered by a seeded, bounded replay of "
    "the same contracts on the real code, which is never counted as proved.")
NOT_CLAIMED = {}

BOUNDED = {}
ASSUMPTIONS = {
    "C01": [
        "the objects of git are immutable and found by their id; different contents have different ids",
        "before an object is saved either all of its parts have a reference or none was ever saved; each part may be "
        "loaded or not",
        "parts are under the contract of this property themselves (induction over the nesting of the model classes)",
        "names of tree entries are texts that utf-8 can encode"],
    "C02": [
        "in-place changes of an instance set that extractor_runs_for_extractor returned are not operations of the model",
        "parts are under the contract of this property themselves (induction over the nesting)"],
    "C03": ["parts are under the contract of this property themselves (induction over the nesting)"],
    "C04": ["sub-trees are under the contract of this property themselves (induction over the height of the tree)"],
    "C06": ["set equality uses the pigeonhole principle: an injective map between finite sets of the same size is onto"],
    "C08": [
        "before an object is copied either all of its parts have a reference or none was ever saved; each part may be "
        "loaded or not",
        "parts are under the contract of this property themselves (induction over the nesting)"],
    "C09": [
        "recorded ids have 40 characters and the ids of different objects differ",
        "add_paths: the paths of one call are distinct and have the same number of elements (1 to 4; flush uses 4); the "
        "recursive call is under the contract for the shorter paths (induction)",
        "each part of a record is stored below its own reference, which is not the none-reference if it has content"],
    "C11": ["fasteners.InterProcessLock excludes other processes as documented; threads of one process are not part of "
            "the guarantee"],
    "C14": [
        "no element of a dataset path is the reserved name of the record entry of a dataset tree",
        "a dataset is not its own sub-dataset in the same version; auto_create is a bool",
        "the top-level objects are loaded; loading them is the subject of top_level"],
    "C16": ["Python 3.12's pathlib"],
    "C17": ["opaque members of copied values are handled by copy.deepcopy as documented"],
}


def harnesses(prop):
    out = []
    for m in MODULES.get(prop, []):
        mod = importlib.import_module(f"harnesses.{m}")
        hs = mod.HARNESSES.get(prop, []) if isinstance(mod.HARNESSES, dict) else mod.HARNESSES
        for h in hs:
            if isinstance(h, tuple):
                out.append((m, h[0].__name__, h[1].__name__))
            else:
                own = getattr(mod, h.__name__, None) is h
                out.append((m if own else h.__module__.split(".")[-1], h.__name__, None))
    return out
