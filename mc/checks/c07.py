"""C07: sizes, occupied/virtual split and array shapes always agree."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, ODQD, ODSincDVR,
    RandomBasisSet, TwoDimensionalHarmonicOscillator)

RULE = """
A case is (kind of set, size, kind of system, particle number, history) or one
setter with one shape, or one construction that must be refused.  All
combinations within the bounds are executed.  The reference is an integer
model: number of functions and of occupied functions.  Non-trivial: always.
"""
OPS = ["cb:U", "cb:X", "cb:S", "cb:SX", "cb:G", "cb:1", "cb:0", "con0", "con1", "copy",
       "mod", "as", "cast", "dbl", "read"]


INTS = {"int": int, "int64": np.int64, "int32": np.int32, "int16": np.int16,
        "int8": np.int8, "0-d": lambda n: np.arange(n, n + 1)[0]}


def bounds(tier):
    q = tier == "quick"
    return dict(l="1..4", depth=2 if q else 3, particle_numbers="-2l-2..2l+3",
                alphabet=OPS, integer_types=list(INTS), setter_axis_lengths="{0, l-1, l, l+1, 2l}",
                large_sizes=[8, 12] if q else [8, 12, 16])


def cases(tier):
    b = bounds(tier)
    for l in (1, 2, 3):
        for cplx in (0, 1):
            for name in ("h", "s", "spin_x", "spin_y", "spin_z", "spin_2", "u",
                         "spin_2_tb", "dipole_moment", "spf", "bra_spf"):
                yield dict(setter=name, l=l)
            break
        for dim in (1, 2, 3):
            for typ in ("list", "tuple", "array"):
                yield dict(setter="components", l=l, dim=dim, typ=typ)
    for l in (1, 2, 3, 4, 7):
        for n in range(-2 * l - 2, 2 * l + 4):
            for kind in ("spatial", "gos", "gos_spin", "spatial_spin", "size"):
                for t in INTS:
                    yield dict(ctor=kind, l=l, n=n, t=t)
    for d in range(0, b["depth"] + 1):
        for l in (1, 2, 3, 4):
            for kind in ("spatial", "gos", "gos_spin"):
                top = {"spatial": l, "gos": 2 * l, "gos_spin": l}[kind]
                for nocc in range(top + 1):
                    for h in itertools.product(OPS, repeat=d):
                        yield dict(kind=kind, l=l, nocc=nocc, hist=list(h),
                                   cls="plain")
    for c in ("odqd", "sinc2", "sinc4", "random", "tdho"):
        for kind in ("spatial", "gos"):
            for nocc in (0, 1, 2):
                for d in (0, 1, 2):
                    for h in itertools.product(
                            ["cb:U", "cb:S", "cb:G", "con1", "con0", "copy",
                             "as"], repeat=d):
                        yield dict(kind=kind, l=2, nocc=nocc, hist=list(h),
                                   cls=c)
    for l in b["large_sizes"]:
        for kind in ("spatial", "gos_spin"):
            for nocc in (0, 1, l // 2, l - 1, l):
                for h in ([], ["cb:U"], ["cb:S"]):
                    yield dict(kind=kind, l=l, nocc=nocc, hist=h, cls="plain")


def setup(tier):
    make("tdho", 2)
    make("odqd", 2)


def make(cls, l, spin=False):
    if cls == "plain":
        return R.Fx(l=l, dim=2, spf="ketbra", spin=spin).build(BasisSet)
    if cls == "odqd":
        return ODQD(l, 3, 9)
    if cls == "sinc2":
        return ODSincDVR(l, 2)
    if cls == "sinc4":
        return ODSincDVR(l, 2, u_repr="4d")
    if cls == "random":
        return RandomBasisSet(l, 3)
    return TwoDimensionalHarmonicOscillator(l, 2, 4)


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


def verify(st, sy, nocc, l, where):
    bs = R.basis_of(sy)
    got = dict(n=sy.n, l=sy.l, m=sy.m, basis_l=bs.l,
               o=list(range(l + 3))[sy.o], v=list(range(l))[sy.v])
    want = dict(n=nocc, l=l, m=l - nocc, basis_l=l, o=list(range(nocc)),
                v=list(range(nocc, l)))
    if got != want:
        raise Violation(f"{where}: {got}, expected {want}")
    # the slices as such, not only what they select here
    a = np.arange(l)
    if len(a[sy.o]) + len(a[sy.v]) != l or list(a[sy.o]) + list(
            a[sy.v]) != list(a):
        raise Violation(f"{where}: slices {sy.o} {sy.v} do not partition")
    gridded = ("spf", "bra_spf")
    for n in ("h", "s", "u", "spin_x", "spin_y", "spin_z", "spin_2",
              "spin_2_tb"):
        x = getattr(bs, n)
        st.step()
        if x is not None and set(np.shape(x)) != {l}:
            raise Violation(f"{where}: {n} has shape {np.shape(x)}, size {l}")
    d = bs.dipole_moment
    if d is not None and np.shape(d) != (bs.dim, l, l):
        raise Violation(f"{where}: dipole shape {np.shape(d)}")
    for n in gridded:
        x = getattr(bs, n)
        if x is not None and (np.shape(x)[0] != l or np.ndim(x) != bs.dim + 1):
            raise Violation(f"{where}: {n} shape {np.shape(x)}")
    for n, x in (("h", sy.h), ("u", sy.u), ("s", sy.s)):
        if set(np.shape(x)) != {l}:
            raise Violation(f"{where}: system {n} has shape {np.shape(x)}")
    if np.shape(sy.h[sy.o, sy.v]) != (nocc, l - nocc):
        raise Violation(f"{where}: occupied-virtual block of h has shape "
                        f"{np.shape(sy.h[sy.o, sy.v])}")


def run_case(case):
    st = Stats()
    st.state(R.digest(str(case)))
    if "setter" in case:
        return setter(case, st)
    if "ctor" in case:
        return ctor(case, st)
    where = str(case)
    l, nocc = case["l"], case["nocc"]
    bs = make(case["cls"], l, case["kind"] == "gos_spin")
    if case["kind"] == "spatial":
        sy = SpatialOrbitalSystem(2 * nocc, bs)
    else:
        sy = GeneralOrbitalSystem(nocc, bs)
        if case["kind"] == "gos":
            l = 2 * l
    spatial = case["kind"] == "spatial"
    for op in case["hist"]:
        st.step()
        if op == "cb:0":
            C, Ct = np.zeros((l, 0)), None
        elif op == "cb:1":
            C, Ct = R.generic((l, 1), True, "one"), None
        elif op.startswith("cb"):
            C, Ct = R.coeff(op[3:], l)
        if op.startswith("cb"):
            if l > 8 and op == "cb:G":
                raise Infeasible
            if C.shape[1] < nocc:
                if not refused(lambda: sy.change_basis(C, Ct)):
                    raise Violation(
                        f"{where}: {C.shape[1]} functions accepted for {nocc} "
                        "occupied ones")
                raise Infeasible  # later states belong to C08
            sy.change_basis(C, Ct)
            l = C.shape[1]
        elif op in ("con0", "con1"):
            if not spatial:
                raise Infeasible
            sy = sy.construct_general_orbital_system(
                anti_symmetrize=op == "con1")
            l, nocc, spatial = 2 * l, 2 * nocc, False
        elif op == "copy":
            sy = sy.copy_system()
        elif op == "mod":
            sy.change_module(R.SHIM if sy.np is np else np)
        elif op == "cast":
            R.basis_of(sy).cast_to_complex()
        elif op == "as":
            if spatial:
                raise Infeasible
            R.basis_of(sy).anti_symmetrize_two_body_elements()
        elif op == "dbl":
            if spatial:
                raise Infeasible
            R.basis_of(sy).change_to_general_orbital_basis()
        elif op == "read":
            R.read_obs(R.basis_of(sy))
    verify(st, sy, nocc, l, where)
    return st


def ctor(case, st):
    l, n, kind = case["l"], case["n"], case["ctor"]
    n, plain = INTS[case["t"]](n), n
    where = str(case)
    st.step()
    spin = kind.endswith("_spin")
    bs = R.Fx(l=l, spf=None, spin=spin).build(BasisSet)
    if kind == "size":
        sy = SpatialOrbitalSystem(0, bs)
        ok = 0 <= plain <= l
        if refused(lambda: sy.set_system_size(n, l)) == ok:
            raise Violation(f"{where}: set_system_size "
                            + ("refused" if ok else "accepted"))
        if ok:
            verify(st, sy, n, l, where)
        return st
    if kind.startswith("spatial"):
        def f():
            return SpatialOrbitalSystem(n, bs)

        ok = not spin and plain % 2 == 0 and 0 <= plain // 2 <= l
        size, nocc = l, plain // 2
    else:
        def f():
            return GeneralOrbitalSystem(n, bs)

        size, nocc = (l if spin else 2 * l), plain
        ok = 0 <= plain <= size
    if not ok:
        if not refused(f):
            raise Violation(f"{where}: accepted")
        return st
    verify(st, f(), nocc, size, where)
    return st


def components(case, st):
    """The dipole elements given as a sequence of components."""
    l, dim = case["l"], case["dim"]
    shapes = [(l, l), (l + 1, l), (l, l + 1), (l - 1, l), (l, l - 1),
              (l + 1, l + 1), (l,), (l, l, l)]
    typ = {"list": list, "tuple": tuple, "array": np.array}[case["typ"]]
    for k in range(1, dim + 2):
        for combo in itertools.product(shapes, repeat=k):
            if k > dim and len(set(combo)) > 1:
                continue
            if case["typ"] == "array" and len(set(combo)) > 1:
                continue
            bs = R.Fx(l=l, dim=dim, spf=None).build(BasisSet)
            d = typ([R.generic(c, True, i) for i, c in enumerate(combo)])
            old = bs.dipole_moment
            ok = k == dim and set(combo) == {(l, l)}
            if combo and not ok and all(set(c) == {l} for c in combo) and (
                    k == dim):
                continue  # components with another number of axes
            st.step()
            r = refused(lambda: setattr(bs, "dipole_moment", d))
            if r == ok:
                raise Violation(f"dipole components {combo} in a set of size "
                                f"{l}, dimension {dim}: "
                                + ("refused" if r else "accepted"))
            if r and bs.dipole_moment is not old:
                raise Violation(f"refused dipole components {combo} stored")
            st.state(R.digest(case["typ"], l, dim, combo))
    return st


def setter(case, st):
    name, l = case["setter"], case["l"]
    if name == "components":
        return components(case, st)
    lens = sorted({0, l - 1, l, l + 1, 2 * l})
    dims = (1, 2, 3) if name in ("dipole_moment", "spf", "bra_spf") else (1,)
    for dim in dims:
        if name in ("u", "spin_2_tb"):
            shapes = list(itertools.product(lens, repeat=4))
        elif name == "dipole_moment":
            shapes = [(k, a, b) for k in range(0, 5)
                      for a in lens for b in lens]
        elif name in ("spf", "bra_spf"):
            shapes = [(a,) + (3,) * g for a in lens for g in range(0, 5)]
        else:
            shapes = list(itertools.product(lens, repeat=2))
        for shp in shapes:
            bs = R.Fx(l=l, dim=dim, spin=True, spf="ketbra").build(BasisSet)
            x = np.ones(shp)
            if name == "dipole_moment":
                ok = shp == (dim, l, l)
            elif name in ("spf", "bra_spf"):
                ok = shp[0] == l and len(shp) == dim + 1
            else:
                ok = set(shp) == {l}
            st.step()
            r = refused(lambda: setattr(bs, name, x))
            if r == ok:
                raise Violation(
                    f"{name} of shape {shp} in a set of size {l}, dimension "
                    f"{dim}: {'refused' if r else 'accepted'}")
            if ok and np.shape(getattr(bs, name)) != shp:
                raise Violation(f"{name} was not stored")
            st.state(R.digest(name, l, dim, shp))
    return st
