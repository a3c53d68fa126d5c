"""C20: sample collection loses, duplicates and reorders nothing."""
import collections
import itertools
import os
import pathlib
import shutil
import tempfile

import numpy as np

from mc.core import Infeasible, Stats, Violation, frames_in_repo
from mc import ref as R
from quantum_systems.sampler import SampleCollector, Sampler

RULE = """
A case is (collection of samplers, history of sample / add / dump / read
operations).  All histories over the alphabet up to the depth bound are run in
an empty scratch directory against a list-and-dictionary reference model;
after every operation the calls received by each sampler, the returned
dictionary, the directory tree and the contents of every file are compared.
Non-trivial: the history contains a sample or a dump.
"""
ASSUMPTIONS = [
    "the file of a dump is path/filename or path/filename.npy (numpy appends "
    "the suffix)",
]
CHUNK = 32


class Solver:
    system = "the system"


class InPlace(Sampler):
    """Adds its record to the dictionary it is given."""

    def __init__(self, name, log):
        super().__init__(Solver(), 3, np)
        self.name, self.log, self.steps, self.dumps = name, log, [], 0

    def sample(self, step):
        self.steps.append(step)
        self.log.append(("sample", self.name, step))

    def content(self):
        return np.array([complex(s) for s in self.steps])

    def dump(self, samples):
        self.dumps += 1
        self.log.append(("dump", self.name, tuple(sorted(samples))))
        samples[self.name] = self.content()
        return samples


class Fresh(InPlace):
    """Returns a new dictionary."""

    def dump(self, samples):
        self.dumps += 1
        self.log.append(("dump", self.name, tuple(sorted(samples))))
        new = dict(samples)
        new[self.name] = self.content()
        return new


class Counter(Fresh):
    """Transforms what it is given: its result depends on being called exactly
    once per dump, after the samplers before it."""

    def dump(self, samples):
        new = super().dump(samples)
        new[self.name] = dict(keys=len(samples),
                              last=samples.get(self.name, {}).get("n", 0),
                              n=self.dumps, text="é")
        return new


class Drop(Fresh):
    """Keeps only its own record and those of its predecessors' names."""

    def dump(self, samples):
        new = super().dump(samples)
        new.pop("a", None)
        return new


class Clear(Fresh):
    """Takes everything out: returns an empty dictionary."""

    def dump(self, samples):
        super().dump(samples)
        return {}


class MyCollector(SampleCollector):
    pass


COLL = {
    "list": ("IF", list), "tuple": ("FI", tuple), "set1": ("F", set),
    "set": ("IF", set), "gen": ("IFC", lambda x: (y for y in x)),
    "iter": ("CI", iter), "deque": ("II", collections.deque),
    "dict": ("FF", lambda x: {y: 0 for y in x}), "empty": ("", list),
    "nparr": ("IF", lambda x: np.array(x, dtype=object)),
    "sublist": ("CFI", type("L", (list,), {})),
    "map": ("IIF", lambda x: map(lambda y: y, x)),
    "drop": ("IXF", list), "clear": ("IZ", list), "clearf": ("ZF", list),
    "twice": ("D", None),
}
OPS = ["s:0", "s:1.5", "s:1.5j", "add:a", "add:s0", "add:big", "dump:",
       "dump:no", "dump:nof", "dump:p", "dump:pp", "dump:new", "dump:npy", "dump:abs",
       "dump:pathlib", "dump:slash", "get", "mk:", "other:", "dump:sub"]
CORE = ["s:0", "s:1.5", "add:a", "add:s0", "dump:", "dump:no", "dump:p",
        "dump:new", "get"]
DUMP = {
    "": dict(), "no": dict(save_samples=False), "p": dict(
        path="out", filename="x.dat"),
    "nof": dict(path="out", filename="x.dat", save_samples=False),
    "pp": dict(path="deep/er/path", filename="y"),
    "new": dict(path="dump", exist_ok=False),
    "sub": dict(path="dump/sub", exist_ok=False),
    "npy": dict(path="out", filename="z.npy", exist_ok=True),
    "abs": dict(path="@abs", filename="w", save_samples=True),
    "slash": dict(path="out", filename="in/x"),
    "pathlib": dict(path=pathlib.Path("out"), filename="v"),
}


def bounds(tier):
    return dict(depth_full=3 if tier == "quick" else 4,
                depth_core=4 if tier == "quick" else 5, alphabet=OPS,
                core_alphabet=CORE, collections=sorted(COLL))


def cases(tier):
    b = bounds(tier)
    yield dict(base=1)
    for c in COLL:
        for d in range(1, 3):
            for h in itertools.product(OPS, repeat=d):
                yield dict(coll=c, hist=list(h))
    for c in ("list", "gen", "set1", "empty", "drop"):
        for h in itertools.product(OPS, repeat=b["depth_full"]):
            yield dict(coll=c, hist=list(h))
    for c in COLL:  # long runs
        for n in (17, 45) if tier == "quick" else (17, 45, 130):
            for tail in (["dump:"], ["dump:p", "s:0", "dump:p"], ["get"]):
                yield dict(coll=c, hist=["s:0", "s:1.5", "s:1.5j"] * n + tail)
            yield dict(coll=c, hist=["s:0", "dump:p", "add:a"] * (n // 8))
    for c in ("gen", "tuple"):
        for h in itertools.product(CORE, repeat=b["depth_core"]):
            yield dict(coll=c, hist=list(h))


def equal(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            list(map(str, sorted(a, key=str))) == \
            list(map(str, sorted(b, key=str))) and \
            all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.array_equal(a, b))
    return type(a) is type(b) and a == b


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = "dir"
        for x in files:
            p = os.path.join(root, x)
            st = os.stat(p)
            out[os.path.relpath(p, d)] = (st.st_ino, st.st_mtime_ns,
                                          st.st_size)
    return out


def base(st):
    st.step()
    s = InPlace("n", [])
    if s.solver.system != "the system" or s.system != "the system" or \
            s.num_samples != 3 or s.np is not np:
        raise Violation("Sampler does not keep what it is given")
    for methods in ((), ("sample",), ("dump",)):
        cls = type("S", (Sampler,), {m: (lambda self, x: x) for m in methods})
        try:
            cls(Solver(), 1, np)
        except TypeError:
            continue
        raise Violation(f"abstract Sampler with only {methods} instantiated")
    return st


def run_case(case):
    st = Stats()
    if "base" in case:
        return base(st)
    cwd = os.getcwd()
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    os.chdir(d)
    try:
        history(case, st, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    st.nontrivial = any(o[:2] in ("s:", "du") for o in case["hist"])
    return st


def history(case, st, d):
    kinds, box = COLL[case["coll"]]
    log = []
    if kinds == "D":  # the same sampler twice in a list
        one = Counter("s0", log)
        samplers = [one, one]
        coll = samplers
    else:
        samplers = [{"I": InPlace, "F": Fresh, "C": Counter, "X": Drop,
                     "Z": Clear}[k](f"s{i}", log)
                    for i, k in enumerate(kinds)]
        coll = box(samplers)
    cls = MyCollector if len(kinds) % 2 else SampleCollector
    sc = cls(coll, np)
    ordered = case["coll"] != "set"
    # reference
    model = {}
    twins = [type(s)(s.name, []) for s in samplers]
    if kinds == "D":
        twins = [twins[0], twins[0]]
    files = {}
    nsteps = 0
    for i, op in enumerate(case["hist"]):
        where = f"{case['coll']} after {case['hist'][:i + 1]}"
        k, arg = op.split(":", 1) if ":" in op else (op, "")
        before = tree(d)
        del log[:]
        st.step()
        if k == "mk":  # made by somebody else: an empty directory, a file
            os.makedirs("dump", exist_ok=True)
            before = tree(d)
        elif k == "other":
            os.makedirs("out", exist_ok=True)
            np.save(os.path.join("out", "other"), {"a": i})
            files[os.path.join("out", "other.npy")] = {"a": i}
            before = tree(d)
        elif k == "s":
            step = {"0": 0, "1.5": 1.5, "1.5j": 1.5j}[arg]
            sc.sample(step)
            want = [("sample", s.name, step) for s in samplers]
            if (log if ordered else sorted(log)) != want:
                raise Violation(f"{where}: samplers got {log}, expected "
                                f"{want}")
            for t in twins:
                t.sample(step)
        elif k == "add":
            key = {"a": "a", "s0": "s0", "big": "array"}[arg]
            if key == "s0":
                val = dict(n=7)
            elif key == "a":
                val = f"value {i}"
            else:
                val = np.arange(6).reshape(2, 3) + 1j * i
            sc.add_sample(key, val)
            model[key] = val.copy() if key == "array" else val
        elif k == "get":
            got = sc.get_samples()
            if not equal(got, model):
                raise Violation(f"{where}: get_samples gives {got}, expected "
                                f"{model}")
        else:
            kw = dict(DUMP[arg])
            if arg == "slash":  # into a directory that is there
                os.makedirs(os.path.join("out", "in"), exist_ok=True)
                before = tree(d)
            if kw.get("path") == "@abs":
                kw["path"] = os.path.join(d, "abs", "dir")
            path = str(kw.get("path", "dump"))
            save = kw.get("save_samples", True)
            refuse = save and kw.get("exist_ok", True) is False and \
                os.path.isdir(path)
            try:
                got = sc.dump(**kw)
                if refuse:
                    raise Violation(f"{where}: existing directory accepted")
            except Exception as e:  # noqa
                if isinstance(e, Violation) or not refuse or \
                        not frames_in_repo(e):
                    raise
                got = None
            if refuse:
                if tree(d) != before:
                    raise Violation(f"{where}: refused dump changed files")
                n = len([x for x in log if x[0] == "dump"])
                if n not in (0, len(samplers)):
                    raise Violation(f"{where}: refused dump reached {n} "
                                    "samplers")
                if n:
                    for t in twins:
                        model = t.dump(dict(model))
                continue
            order = range(len(twins))
            if not ordered:
                seen = [x[1] for x in log]
                order = [int(x[1:]) for x in seen]
                if sorted(order) != list(range(len(twins))):
                    raise Violation(f"{where}: dump reached {seen}")
            want_log = []
            for j in order:
                want_log.append(("dump", twins[j].name, tuple(sorted(model))))
                model = twins[j].dump(dict(model))
            if log != want_log:
                raise Violation(f"{where}: dump calls {log}, expected "
                                f"{want_log}")
            if not equal(got, model):
                raise Violation(f"{where}: dump returned {got}, expected "
                                f"{model}")
            after = tree(d)
            if not save:
                if after != before:
                    raise Violation(f"{where}: files touched: {after}")
            else:
                fn = kw.get("filename") or f"tmp_{cls.__name__}.samples"
                cand = [os.path.relpath(os.path.join(path, fn) + x, d)
                        if os.path.isabs(path) else
                        os.path.normpath(os.path.join(path, fn) + x)
                        for x in ("", ".npy")]
                there = [c for c in cand if c in after]
                changed = {x for x in after if after[x] != before.get(x)
                           and after[x] != "dir"}
                gone = set(before) - set(after)
                if len(there) != 1 or changed - set(there) or gone:
                    raise Violation(f"{where}: expected the file {cand[0]}"
                                    f"[.npy] only; changed {changed}, removed "
                                    f"{gone}")
                files[there[0]] = {a: (b.copy() if hasattr(b, "copy") else b)
                                   for a, b in model.items()}
            extra = {x for x in after if after[x] == "dir"
                     and x not in before} if save else set()
            for x in extra:
                if not os.path.join(d, os.path.normpath(path)).startswith(
                        os.path.join(d, x)):
                    raise Violation(f"{where}: directory {x} created")
        if k != "dump" and tree(d) != before:
            raise Violation(f"{where}: files touched")
        if not equal(sc.get_samples(), model):
            raise Violation(f"{where}: samples {sc.get_samples()}, expected "
                            f"{model}")
        for f, m in files.items():
            got = np.load(os.path.join(d, f), allow_pickle=True)
            got = got.item() if got.ndim == 0 else None
            if not equal(got, m):
                raise Violation(f"{where}: file {f} holds {got}, expected "
                                f"{m}")
    st.state(R.digest(case["coll"], repr(sorted(model)), repr(
        [t.steps for t in twins]), repr([t.dumps for t in twins]),
        repr(sorted(files))))
