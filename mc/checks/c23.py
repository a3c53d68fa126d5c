"""C23: changing the array module or casting to complex preserves every value."""
import itertools
import random
import types

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from mc.checks import c06
from mc.checks.c06 import basis_of, observe
from mc.checks.c22 import change
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, ODQD, ODSincDVR, RandomBasisSet,
    SpatialOrbitalSystem, TwoDimensionalDoubleWell,
    TwoDimensionalHarmonicOscillator, TwoDimHarmonicOscB,
    construct_pyscf_system_ao, construct_pyscf_system_rhf)
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO

RULE = """
A case is (contents, container, time-evolution operator, history of changes,
casts and module changes inserted at chosen positions) or (set class, array
module passed to its constructor, history).  Right after each insertion every
value and shape must be as before and every stored array of the new kind
(array subclass owned by the module, complex type); at the end every observable
must equal that of a control object without insertions.  All histories and
insertions up to the bounds are executed.  Non-trivial: at least one insertion.
"""
ASSUMPTIONS = [
    "array modules are modelled by modules with numpy semantics, one of which "
    "owns a subclass of ndarray",
]
CHUNK = 16


class Foreign(np.ndarray):
    """Array type of the module FOREIGN."""


def _own(f):
    def g(*a, **k):
        r = f(*a, **k)
        return r.view(Foreign) if type(r) is np.ndarray else r
    return g


FOREIGN = R.shim_module("numpy_foreign")
for _n in dir(np):
    _f = getattr(np, _n)
    if not _n.startswith("_") and callable(_f) and not isinstance(
            _f, (type, np.ufunc, types.ModuleType)):
        setattr(FOREIGN, _n, _own(_f))
FOREIGN.ndarray = Foreign
MODS = {"np": np, "shim": R.SHIM, "own": FOREIGN}

STORED = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y",
          "spin_z", "spin_2", "spin_2_tb")


def intset():
    b = BasisSet(2, 1)
    b.h = np.array([[1, 2], [3, 4]])
    b.s = np.eye(2, dtype=int)
    b.u = np.arange(16).reshape(2, 2, 2, 2)
    b.dipole_moment = np.arange(4).reshape(1, 2, 2)
    b.spf = np.arange(6).reshape(2, 3)
    return b


KINDS = dict(c06.KINDS)
KINDS.update({
    "nos": lambda: R.Fx(l=2, dim=1, s=None, spf="ket").build(BasisSet),
    "real3": lambda: R.Fx(l=3, dim=3, cplx=False, spf="ketbra", s="eye").build(
        BasisSet),
    "int": intset,
    "big": lambda: R.Fx(l=7, dim=2, spf="ket").build(BasisSet),
    "herm": lambda: R.Fx(l=3, dim=1, spf="ketbra", sym="herm").build(BasisSet),
    "forder": lambda: R.Fx(l=2, dim=1, spf="ketbra", lay="f").build(BasisSet),
    "view": lambda: R.Fx(l=2, dim=1, spf="ketbra", lay="view").build(BasisSet),
    "f32": lambda: f32(),
    "empty": lambda: BasisSet(2, 1),
    "honly": lambda: honly(),
})


def f32():
    b = R.Fx(l=2, dim=1, cplx=False).build(BasisSet)
    b.h = b.h.astype(np.float32)
    b.u = b.u.astype(np.complex64)
    return b


def honly():
    b = BasisSet(2, 1)
    b.h = R.generic((2, 2), False, "honly")
    return b


INS = ["cast", "shim", "own", "np"]
INS2 = [list(x) for x in itertools.product(INS, repeat=2)]
OPS = ["cb:U", "cb:X", "cb:S", "dbl:1", "dbl:0", "as", "set:h", "set:spf",
       "setbra", "setdip", "w:spf", "w:h", "teo:laser", "teo:cust", "teo:adia",
       "copy"]


def bounds(tier):
    return dict(depth=2, insertions=INS, kinds=sorted(KINDS), changes=OPS,
                constructors=sorted(SETS), modules=sorted(MODS))


def setup(tier):
    for k in c06.SLOW + ("odqd", "sinc2"):
        KINDS[k]()


def build(case):
    c = case["cont"]
    bs = KINDS[case["kind"]]()
    if c == "basis":
        return bs
    if case["kind"] in ("empty", "honly") or (
            case["kind"] == "nos" and c != "spatial"):
        raise Infeasible
    return c06.build(dict(case))


c06.KINDS = KINDS


def insert(o, ins, case, st):
    """Perform a cast or module change and check its immediate effect."""
    bs = basis_of(o)
    where = f"{case}: {ins}"
    before = {n: None if getattr(bs, n) is None else np.array(getattr(bs, n))
              for n in STORED}
    # what is stored rather than implied
    st.step()
    condensed = bs.u is not None and np.ndim(bs.u) == 2
    if ins == "cast":
        bs.cast_to_complex()
    else:
        o.change_module(MODS[ins])
    for n in STORED:
        a, b = getattr(bs, n), before[n]
        if (a is None) != (b is None):
            raise Violation(f"{where}: {n} appeared or vanished")
        if a is None:
            continue
        if np.shape(a) != b.shape or not np.array_equal(
                np.asarray(a), b.astype(np.asarray(a).dtype)):
            raise Violation(f"{where}: value of {n} changed: "
                            f"{R.describe(n, a, b)}")
        if ins == "cast" and np.asarray(a).dtype != np.complex128:
            raise Violation(f"{where}: {n} has type {np.asarray(a).dtype}")
        if ins == "own" and not condensed and not isinstance(a, Foreign):
            raise Violation(f"{where}: {n} is a {type(a).__name__}, not an "
                            "array of the new module")
        if ins == "np" and not condensed and not isinstance(a, np.ndarray):
            raise Violation(f"{where}: {n} is a {type(a).__name__}")
    if ins != "cast":
        if bs.np is not MODS[ins] or o.np is not MODS[ins]:
            raise Violation(f"{where}: np is {bs.np}")


def compare(got, want, where):
    for d in (got, want):
        d.pop("np", None)
    if got.keys() != want.keys():
        raise Violation(f"{where}: {sorted(got)} vs {sorted(want)}")
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            # single-precision contents are rounded to that precision
            tol = 1e-5 if "f32" in where else 1e-11
            ok = isinstance(g, np.ndarray) and g.shape == w.shape and (
                w.dtype.kind not in "fciu" or R.close(g, w, tol))
        else:
            ok = not isinstance(g, np.ndarray) and g == w
        if not ok:
            raise Violation(f"{where}: {k}: " + (
                R.describe(k, g, w) if isinstance(w, np.ndarray) and isinstance(
                    g, np.ndarray) else f"got {g!r}, expected {w!r}"))


def rbs(**kw):
    np.random.seed(7)
    return RandomBasisSet(3, 2, **kw)


GAUSS = dict(weight=1.0, center=0.2, deviation=1.1)
SETS = {
    "odqd": lambda **k: ODQD(3, 3, 9, **k),
    "odqd_dw": lambda **k: ODQD(3, 3, 9, potential=ODQD.DWPotential(1, 2), **k),
    "odqd_ga": lambda **k: ODQD(3, 3, 9, potential=ODQD.GaussianPotential(
        **GAUSS, np=k.get("np") or np), **k),
    "odho": lambda **k: ODHO(3, 3, 9, **k),
    "sinc2": lambda **k: ODSincDVR(3, 2, **k),
    "sinc4": lambda **k: ODSincDVR(3, 2, u_repr="4d", **k),
    "tdho": lambda **k: TwoDimensionalHarmonicOscillator(4, 2, 4, omega=0.7,
                                                         **k),
    "tddw": lambda **k: TwoDimensionalDoubleWell(3, 2, 4, barrier_strength=2,
                                                 axis=1, **k),
    "tdhob": lambda **k: TwoDimHarmonicOscB(3, 2, 4, omega_c=0.5, **k),
    "random": rbs,
    "basis": lambda **k: R.Fx(l=2, dim=1).build(BasisSet, k.get("np")),
    "ao": lambda **k: construct_pyscf_system_ao(
        "he 0 0 0", basis="6-31g", add_spin=False, **k),
    "ao_spin": lambda **k: construct_pyscf_system_ao(
        "he 0 0 0", basis="6-31g", **k),
    "rhf": lambda **k: construct_pyscf_system_rhf(
        "he 0 0 0", basis="6-31g", add_spin=False, **k),
    "rhf_spin": lambda **k: construct_pyscf_system_rhf(
        "h 0 0 0; h 0 0 1.4", basis="sto-3g", **k),
}
CHIST = ["cb:U", "cb:S", "dbl:1", "cast", "shim", "own", "np", "copy", "as",
         "sos", "gos"]


def cases(tier):
    quick = tier == "quick"
    for s in SETS:
        for m in MODS:
            for d in (0, 1, 2):
                for h in itertools.product(CHIST, repeat=d):
                    if d == 2 and s.startswith("td") and h[0] not in (
                            "sos", "gos", "own"):
                        continue
                    yield dict(set=s, mod=m, hist=list(h))
    for k in KINDS:
        slow = k in c06.SLOW
        for c in ("basis", "spatial", "gos0", "gos1"):
            for teo in ("none", "laser", "laserv", "custc", "adia"):
                if teo != "none" and (c == "basis" or slow):
                    continue
                for ins in [[i] for i in INS] + INS2:
                    if slow and len(ins) == 2 and ins[0] != "own":
                        continue
                    yield dict(kind=k, cont=c, teo=teo, hist=[],
                               ins=[[0, ins]])
                if teo not in ("none", "laserv") or slow:
                    continue
                if quick and teo != "none" and k not in ("plain", "ket"):
                    continue
                for op in OPS:
                    for ins in (["cast"], ["own"], ["shim"], ["own", "np"],
                                ["own", "cast"]):
                        for pos in (0, 1):
                            yield dict(kind=k, cont=c, teo=teo, hist=[op],
                                       ins=[[pos, ins]])
    for k in ("plain", "ket", "real3") if quick else list(KINDS):
        if k in c06.SLOW or k in ("empty", "honly"):
            continue
        for c in ("basis", "spatial", "gos0", "gos1"):
            for h in itertools.product(OPS, repeat=2):
                for ins in (["cast"], ["own"]):
                    poss = (0, 1, 2) if k == "ket" or not quick else (1,)
                    for pos in poss:
                        yield dict(kind=k, cont=c, teo="none", hist=list(h),
                                   ins=[[pos, ins]])
                yield dict(kind=k, cont=c, teo="none", hist=list(h), ins=[
                    [0, ["own"]], [1, ["cast", "np"]], [2, ["shim"]]])


def alter(o, op):
    if op == "copy":
        return o.copy_basis() if o is basis_of(o) else o.copy_system()
    change(o, op)
    return o


def construct(case):
    st = Stats()
    s, m = case["set"], MODS[case["mod"]]
    where = str(case)
    objs = [SETS[s](np=m), SETS[s]()]
    for i in range(len(case["hist"]) + 1):
        if i:
            op = case["hist"][i - 1]
            for j, o in enumerate(objs):
                bs = basis_of(o)
                if op in INS:
                    if bs.u is not None and np.ndim(bs.u) == 2 and \
                            op != "cast":
                        raise Infeasible
                    insert(o, op, case, st)
                elif op in ("sos", "gos"):
                    if o is not bs or bs.includes_spin and op == "sos":
                        raise Infeasible
                    objs[j] = SpatialOrbitalSystem(2, bs) if op == "sos" else \
                        GeneralOrbitalSystem(2, bs)
                else:
                    objs[j] = alter(o, op)
                st.step()
        else:
            for b in objs:
                if basis_of(b).np is not (m if b is objs[0] else np):
                    raise Violation(f"{where}: np is {basis_of(b).np}")
        compare(observe(objs[0]), observe(objs[1]),
                f"{where} after {case['hist'][:i]}")
    st.state(R.digest(repr(case)))
    return st


def run_case(case):
    if "set" in case:
        return construct(case)
    st = Stats()
    ins = {p: q for p, q in case["ins"]}
    o, w = build(case), build(case)
    for i in range(len(case["hist"]) + 1):
        for x in ins.get(i, []):
            insert(o, x, case, st)
        if i < len(case["hist"]):
            try:
                w = alter(w, case["hist"][i])
            except Infeasible:
                raise
            except Exception:  # not enabled on the control object either
                raise Infeasible
            o = alter(o, case["hist"][i])
            st.step()
    compare(observe(o), observe(w), str(case))
    st.state(R.digest(repr(case)))
    return st
