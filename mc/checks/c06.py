"""C06: copies are identical and fully independent."""
import itertools
import random

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, ODQD, ODSincDVR,
    RandomBasisSet, TwoDimensionalDoubleWell, TwoDimensionalHarmonicOscillator,
    TwoDimHarmonicOscB)
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from quantum_systems.time_evolution_operators import (
    AdiabaticSwitching, CustomOneBodyOperator, LaserField,
    TimeEvolutionOperator)

RULE = """
A case is (basis kind, container, time-evolution operator, copy method, history
before copying, interleaving of operations on source and copy).  All
interleavings up to the depth bound are executed.  Oracle: a source that was
never copied, on which only the source's (respectively only the copy's)
operations are executed; every observable of both objects must agree with it,
and no observable array may share memory.  Non-trivial: the interleaving or
the sharing test involves at least one array.
"""
ASSUMPTIONS = ["plain functions passed as callables are immutable and may be "
               "shared; callable instances of user classes are copied with "
               "their attributes"]
GRID = dict(l=3, grid_length=3, num_grid_points=9)


class UserPotential:
    """A user's own callable with attributes (and an array of them)."""

    def __init__(self):
        self.omega = 0.6
        self.table = np.array([0.3, -0.2, 0.1])

    def __call__(self, x):
        return 0.5 * self.omega ** 2 * x ** 2 + np.polyval(self.table, x)


class UserPulse:
    def __init__(self, dim=None):
        self.omega = 0.9
        self.table = np.arange(1.0, 1 + (dim or 1))
        self.scalar = dim is None

    def __call__(self, t):
        v = (0.4 + np.sin(self.omega * (t + 0.3))) * self.table
        return v[0] if self.scalar else v


class UserOperator(TimeEvolutionOperator):
    """A user's own time-evolution operator."""

    def __init__(self):
        self.omega = 0.9
        self.table = np.array([0.5, -0.3])

    @property
    def is_one_body_operator(self):
        return True

    @property
    def is_two_body_operator(self):
        return True

    def set_system(self, system):
        super().set_system(system)
        self.of = system

    def h_t(self, t):
        return self.of.h * (1 + self.omega * t * self.table[0])

    def u_t(self, t):
        return self.of.u * (1 - self.omega * t * self.table[1])


def attributes():
    """A set with attributes the user has added: containers of arrays."""
    bs = R.Fx(l=2, dim=1, spf="ket").build(BasisSet)
    bs.extra = [np.arange(3.0), UserPulse(), {"x": np.arange(4.0) * 1j,
                                              "y": (UserPulse(), [1, 2])}]
    bs.table = np.arange(5.0)
    return bs


USER = (UserPotential, UserPulse, UserOperator)


def user_callables(o):
    """Instances of the user's classes held by a system's operator or a basis
    set, at any depth."""
    out, todo, seen = [], [o, basis_of(o)], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, USER):
            out.append(x)
        elif isinstance(x, (list, tuple)):
            todo += x
        elif isinstance(x, dict):
            todo += x.values()
        elif type(x).__module__.startswith("quantum_systems"):
            todo += vars(x).values()
    return out


def rnd():
    np.random.seed(5)
    random.seed(5)
    return RandomBasisSet(2, 2)


def equal(cplx):
    """Distinct arrays that happen to be equal."""
    fx = R.Fx(l=2, dim=2, spf="ketbra", cplx=cplx)
    fx.bra = fx.spf = fx.spf.real.astype(fx.spf.dtype)
    fx.h = fx.s
    fx.dip = np.array([fx.s, fx.s])
    return fx.build(BasisSet)


KINDS = {
    "plain": lambda: R.Fx(l=2, dim=2, spf="ketbra").build(BasisSet),
    "ket": lambda: R.Fx(l=2, dim=1, spf="ket", cplx=False).build(BasisSet),
    "attr": attributes,
    "equal": lambda: equal(False), "equal_c": lambda: equal(True),
    "min": lambda: R.Fx(l=2, dim=1, spf=None, dip=False).build(BasisSet),
    "spin": lambda: R.Fx(l=3, dim=1, spf="ket", spin=True).build(BasisSet),
    "herm": lambda: R.Fx(l=3, dim=1, spf="ketbra", sym="herm").build(BasisSet),
    "int": lambda: R.Fx(l=2, dim=1, spf="ket", sym="int").build(BasisSet),
    "view": lambda: R.Fx(l=2, dim=1, spf="ketbra", lay="view").build(BasisSet),
    "forder": lambda: R.Fx(l=2, dim=1, spf="ket", lay="f").build(BasisSet),
    "shim": lambda: R.Fx(l=2, dim=1).build(BasisSet, R.SHIM),
    "odqd": lambda: ODQD(**GRID),
    "odqd_ho": lambda: ODQD(**GRID, potential=ODQD.HOPotential(0.7)),
    "odqd_dw": lambda: ODQD(**GRID, potential=ODQD.DWPotential(0.7, 2)),
    "odqd_sm": lambda: ODQD(**GRID, potential=ODQD.DWPotentialSmooth(3)),
    "odqd_sy": lambda: ODQD(**GRID, potential=ODQD.SymmetricDWPotential()),
    "odqd_as": lambda: ODQD(**GRID, potential=ODQD.AsymmetricDWPotential()),
    "odqd_ga": lambda: ODQD(**GRID, potential=ODQD.GaussianPotential(
        1.0, 0.2, 1.1, np)),
    "odqd_at": lambda: ODQD(**GRID, potential=ODQD.AtomicPotential()),
    "odqd_us": lambda: ODQD(**GRID, potential=UserPotential()),
    "sinc_us": lambda: ODSincDVR(3, 2, potential=UserPotential()),
    "odho": lambda: ODHO(3, 3, 9),
    "sinc2": lambda: ODSincDVR(3, 2),
    "sinc4": lambda: ODSincDVR(3, 2, u_repr="4d"),
    "sinc_ga": lambda: ODSincDVR(3, 2, potential=ODSincDVR.GaussianPotential(
        1.0, 0.2, 1.1, np)),
    "random": rnd,
    "tdho": lambda: TwoDimensionalHarmonicOscillator(3, 2, 4),
    "tddw": lambda: TwoDimensionalDoubleWell(2, 2, 4, barrier_strength=2),
    "tdhob": lambda: TwoDimHarmonicOscB(2, 2, 4, omega_c=0.5),
}
SLOW = ("tdho", "tddw", "tdhob")
ARR = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y",
       "spin_z", "spin_2", "spin_2_tb", "grid", "sigma_x", "sigma_y",
       "sigma_z")
TEO = ["none", "laser", "laserv", "lasert", "adia", "adiac", "cust", "custc",
       "usero", "laseru", "laseruv", "laserut", "adiau", "custu"]


def make_teo(kind, l, dim):
    if kind == "none":
        return None
    if kind == "laser":
        return LaserField(0.7)
    if kind == "laserv":
        return LaserField(lambda t: np.cos(t), np.arange(1.0, dim + 1))
    if kind == "lasert":
        return LaserField(lambda t: np.cos(t),
                          lambda t: t * np.arange(1.0, dim + 1))
    if kind == "usero":
        return UserOperator()
    if kind == "laseru":
        return LaserField(UserPulse())
    if kind == "laseruv":
        return LaserField(UserPulse(), np.arange(1.0, dim + 1))
    if kind == "laserut":
        return LaserField(UserPulse(), UserPulse(dim))
    if kind == "adiau":
        return AdiabaticSwitching(UserPulse())
    if kind == "adia":
        return AdiabaticSwitching(lambda t: 1 - t)
    if kind == "adiac":
        return AdiabaticSwitching(0.3)
    op = R.generic((l, l), True, "custom")
    if kind == "custu":
        return CustomOneBodyOperator(UserPulse(), op)
    if kind == "cust":
        return CustomOneBodyOperator(lambda t: t, op)
    return CustomOneBodyOperator(0.4, op)


def build(case):
    bs = KINDS[case["kind"]]()
    bs.nuclear_repulsion_energy = 0.3
    c = case["cont"]
    if c == "basis":
        return bs
    if c == "spatial":
        if bs.includes_spin:
            raise Infeasible
        sy = SpatialOrbitalSystem(2, bs)
    else:
        sy = GeneralOrbitalSystem(1, bs, anti_symmetrize=c == "gos1")
    t = case.get("teo", "none")
    if t != "none":
        if t.startswith("laser") and sy.dipole_moment is None:
            raise Infeasible
        sy.set_time_evolution_operator(make_teo(t, sy.l, bs.dim))
    return sy


def basis_of(o):
    return R.basis_of(o)


def observe(o):
    bs = basis_of(o)
    d = {}
    for n in ARR:
        v = getattr(bs, n, None)
        d[n] = None if v is None else np.array(v)
    for n in ("l", "dim", "includes_spin", "anti_symmetrized_u",
              "nuclear_repulsion_energy"):
        d[n] = getattr(bs, n)
    d["class"] = type(o).__name__ + type(bs).__name__
    d["np"] = getattr(bs.np, "__name__", "?")
    pot = getattr(bs, "potential", None)
    if pot is not None:
        d["potential"] = pot(np.linspace(-1.5, 1.7, 8))
    for n in ("omega", "mass", "a", "alpha", "beta", "omega_c", "u_repr",
              "barrier_strength", "axis"):
        if hasattr(bs, n):
            d["p_" + n] = np.array(getattr(bs, n)) if n != "u_repr" else (
                bs.u_repr)
    for n, v in arrays(bs).items():  # attributes of the user
        if n.startswith(("extra", "table")):
            d["own " + n] = np.array(v)
    for i, x in enumerate(user_callables(bs)):
        if isinstance(x, UserPulse):
            d[f"own pulse {i}"] = np.array(x(0.4))
    if hasattr(bs, "df"):
        d["df"] = bs.df.to_numpy()
    if o is not bs:
        for n in ("n", "l", "m", "o", "v"):
            d["sys_" + n] = getattr(o, n)
        d["has1"] = o.has_one_body_time_evolution_operator
        d["has2"] = o.has_two_body_time_evolution_operator
        for t in (0.0, 0.7):
            for f in ("h_t", "u_t"):
                try:
                    d[f"{f}({t})"] = np.array(getattr(o, f)(t))
                except ValueError as e:
                    # custom operator in a basis of another size
                    d[f"{f}({t})"] = "ValueError"
        if np.ndim(o.u) == 4:
            d["E"] = np.array(o.compute_reference_energy())
            d["F"] = np.array(o.construct_fock_matrix(o.h, o.u))
    return d


def compare(got, want, where):
    if got.keys() != want.keys():
        raise Violation(f"{where}: observables {sorted(got)} vs {sorted(want)}")
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            ok = isinstance(g, np.ndarray) and g.shape == w.shape and (
                g.tobytes() == w.tobytes() if g.dtype == w.dtype else False)
            ok = ok or (isinstance(g, np.ndarray) and R.close(g, w, 1e-12))
        else:
            ok = not isinstance(g, np.ndarray) and g == w
        if not ok:
            raise Violation(f"{where}: {k}: " + (
                R.describe(k, g, w) if isinstance(w, np.ndarray) and isinstance(
                    g, np.ndarray) else f"got {g!r}, expected {w!r}"))


def arrays(o):
    """Every array reachable through the package's own objects."""
    out = {n: getattr(basis_of(o), n, None) for n in ARR}
    todo, seen = [("", o), ("", basis_of(o))], set()
    while todo:
        p, x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        for n, v in (x.items() if isinstance(x, dict) else enumerate(x)
                     if isinstance(x, (list, tuple)) else vars(x).items()):
            n = str(n)
            if isinstance(v, (list, tuple, dict)):
                todo.append((p + n + ".", v))
            elif isinstance(v, np.ndarray):
                out.setdefault(p + n, v)
            elif isinstance(v, USER) or type(v).__module__.startswith(
                    "quantum_systems"):
                todo.append((p + n + ".", v))
            elif hasattr(v, "to_numpy"):
                out.setdefault(p + n, v.to_numpy())
    return {n: v for n, v in out.items() if isinstance(v, np.ndarray)}


def shared(a, b, where):
    A, B = arrays(a), arrays(b)
    k = 0
    for n, x in A.items():
        for m, y in B.items():
            if x.flags.writeable or y.flags.writeable:
                k += 1
                if np.may_share_memory(x, y) and np.shares_memory(x, y):
                    raise Violation(f"{where}: {n} of the source and {m} of "
                                    "the copy share memory")
    return k


def do(o, op):
    bs = basis_of(o)
    k = op.split(":")
    if k[0] == "cb":
        C, Ct = R.coeff(k[1], bs.l)
        if o is not bs and C.shape[1] < o.n:
            raise Infeasible
        o.change_basis(C, Ct)
    elif k[0] == "wdf":  # in-place write to the table of states
        if not hasattr(bs, "df"):
            raise Infeasible
        bs.df.loc[:, "E"] = bs.df["E"] * 2 + 1
    elif k[0] == "w":  # in-place write
        a = getattr(bs, k[1], None)
        if not isinstance(a, np.ndarray):
            raise Infeasible
        a *= 3
        a += 2
    elif k[0] == "dbl":
        if bs.includes_spin or o is not bs:
            raise Infeasible
        bs.change_to_general_orbital_basis(anti_symmetrize=k[1] == "1")
    elif k[0] == "as":
        if not bs.includes_spin:
            raise Infeasible
        bs.anti_symmetrize_two_body_elements()
    elif k[0] == "cast":
        bs.cast_to_complex()
    elif k[0] == "mod":
        if getattr(bs, "sparse_repr", False):
            raise Infeasible
        o.change_module(R.SHIM if bs.np is np else np)
    elif k[0] == "set":
        if k[1] == "h":
            bs.h = R.generic((bs.l, bs.l), True, "set")
        elif k[1] == "nuc":
            bs.nuclear_repulsion_energy = 9.5
        elif k[1] == "spf":
            if bs.spf is None:
                raise Infeasible
            bs.spf = 2 * bs.spf
    elif k[0] == "teo":
        if o is bs or (k[1].startswith("laser") and o.dipole_moment is None):
            raise Infeasible
        o.set_time_evolution_operator(make_teo(k[1], o.l, bs.dim))
    elif k[0] == "teow":  # write to the operator's own array
        t = None if o is bs else next(
            (v for v in vars(o).values()
             if isinstance(v, TimeEvolutionOperator)), None)
        a = [v for v in vars(t).values() if isinstance(v, np.ndarray)] if (
            t is not None) else []
        if not a:
            raise Infeasible
        for v in a:
            v *= 5
    elif k[0] == "pot":
        p = getattr(bs, "potential", None)
        if p is None:
            raise Infeasible
        n = [x for x in ("omega", "a", "weight", "Za") if hasattr(p, x)]
        setattr(p, n[0], getattr(p, n[0]) * 1.7)
    elif k[0] == "user":  # write the attributes of the user's callables
        us = user_callables(o)
        if not us:
            raise Infeasible
        for x in us:
            if k[1] == "w":
                if hasattr(bs, "extra"):
                    bs.extra[0][1] -= 3
                    bs.extra[2]["x"][0] += 1
                x.table *= -2.5
            else:
                x.omega = 1.6
    elif k[0] == "setup":
        if not hasattr(bs, "setup_basis") or bs.includes_spin or (
                "ODSinc" in type(bs).__name__) or "Random" in type(bs).__name__:
            raise Infeasible
        bs.setup_basis()
    elif k[0] == "ev":
        if o is bs:
            raise Infeasible
        try:
            o.h_t(0.3)
            o.u_t(0.2)
        except ValueError:
            raise Infeasible
    elif k[0] == "copy":
        # a further copy, thrown away after being written to
        c = o.copy_basis() if o is bs else o.copy_system()
        for n in ARR:
            a = getattr(basis_of(c), n, None)
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = 0
        if c is not basis_of(c):
            c.change_basis(np.eye(c.l))
    else:
        raise KeyError(op)


WRITES = ["w:" + n for n in ARR]
OPS_B = ["cb:U", "cb:X", "cb:S", "dbl:1", "as", "cast", "mod", "set:h",
         "set:nuc", "set:spf", "pot", "user:w", "user:s", "setup", "copy"] + WRITES
OPS_S = ["cb:U", "cb:X", "cb:S", "as", "cast", "mod", "set:h", "teo:none",
         "teo:laser", "teo:adia", "teow", "pot", "ev", "user:w", "user:s", "teo:laserut",
         "copy"] + WRITES
CORE_B = ["cb:U", "cb:S", "dbl:1", "as", "mod", "copy", "w:h", "w:u", "w:spf",
          "w:dipole_moment"]
CORE_S = ["cb:U", "cb:S", "as", "teo:none", "teo:laser", "teo:adia", "teow",
          "ev", "copy", "w:h", "w:u", "w:dipole_moment"]
PRE = ["cb:U", "dbl:0", "dbl:1", "ev", "mod", "cast", "cb:X", "pot"]


def bounds(tier):
    return dict(depth_all_kinds=1, depth_core=2 if tier == "quick" else 3,
                pre_depth=1, kinds=list(KINDS), operators=TEO,
                alphabet_basis=OPS_B, alphabet_system=OPS_S)


def setup(tier):
    for k in SLOW + ("odqd", "sinc2"):
        KINDS[k]()


def cases(tier):
    b = bounds(tier)

    def acts(ops, d):
        for h in itertools.product([(w, o) for w in "sc" for o in ops],
                                   repeat=d):
            yield [list(x) for x in h]

    for k in KINDS:
        for cont in ("basis", "spatial", "gos0", "gos1"):
            ms = ["copy"] + (["con0", "con1"] if cont == "spatial" else [])
            for m in ms:
                for pre in [[]] + [[p] for p in PRE]:
                    if k in SLOW and len(pre) and pre[0] != "cb:U":
                        continue
                    yield dict(kind=k, cont=cont, m=m, pre=pre, ops=[])
                ops = OPS_B if cont == "basis" else OPS_S
                if k in SLOW:
                    ops = ["cb:U", "w:h", "w:u", "w:spf", "w:dipole_moment",
                           "setup"] + (["wdf"] if k == "tdhob" else [])
                for o in acts(ops, 1):
                    yield dict(kind=k, cont=cont, m=m, pre=[], ops=o)
    for k in ("plain", "ket", "odqd_dw", "random"):
        for cont in ("spatial", "gos0", "gos1"):
            for t in TEO[1:]:
                ms = ["copy"] + (["con0", "con1"] if cont == "spatial" and
                                 not t.startswith("cust") else [])
                for m in ms:
                    for pre in ([], ["ev"], ["cb:U"], ["mod"]):
                        for o in [[]] + list(acts(OPS_S, 1)):
                            yield dict(kind=k, cont=cont, teo=t, m=m, pre=pre,
                                       ops=o)
    for k, cont, t in (("odqd_us", "basis", "none"),
                       ("odqd_us", "spatial", "laserut"),
                       ("ket", "gos1", "laserut"), ("ket", "spatial", "adiau"),
                       ("attr", "basis", "none"), ("attr", "gos1", "usero"),
                       ("plain", "spatial", "usero"),
                       ("plain", "spatial", "laseruv")):
        ops = ["user:w", "user:s", "copy"] + (
            ["setup"] if cont == "basis" else ["ev", "cb:U"])
        for m in ("copy", "con1") if cont == "spatial" else ("copy",):
            for dd in (1, 2, 3):
                for o in acts(ops, dd):
                    yield dict(kind=k, cont=cont, teo=t, m=m, pre=[], ops=o)
    d = b["depth_core"]
    for k in ("plain", "ket"):
        for dd in range(2, d + 1):
            for o in acts(CORE_B, dd):
                yield dict(kind=k, cont="basis", m="copy", pre=[], ops=o)
            for cont, t in (("spatial", "laserv"), ("gos1", "lasert"),
                            ("spatial", "custc")):
                if dd == 3 and k == "ket":
                    continue
                for m in ("copy", "con1"):
                    if m == "con1" and (cont != "spatial" or t == "custc"):
                        continue
                    for o in acts(CORE_S, dd):
                        yield dict(kind=k, cont=cont, teo=t, m=m, pre=[],
                                   ops=o)
    for l in range(3, 9 if tier == "quick" else 13):
        for m in ("copy", "con1"):
            for o in ([], [["c", "cb:U"]], [["s", "w:h"]], [["c", "w:u"]]):
                yield dict(kind=f"size{l}", cont="spatial", m=m, pre=[], ops=o)


def mk_copy(o, m):
    if m == "copy":
        return o.copy_basis() if isinstance(o, BasisSet) else o.copy_system()
    return o.construct_general_orbital_system(anti_symmetrize=m == "con1")


def run_case(case):
    st = Stats()
    if case["kind"].startswith("size"):
        l = int(case["kind"][4:])
        KINDS[case["kind"]] = lambda: R.Fx(l=l, dim=1).build(BasisSet)
    where = str(case)

    def fresh():
        o = build(case)
        for op in case["pre"]:
            do(o, op)
        return o

    src = fresh()
    before = observe(src)
    cp = mk_copy(src, case["m"])
    st.step()
    if cp is src or basis_of(cp) is basis_of(src):
        raise Violation(f"{where}: the copy is the source")
    compare(observe(src), before, where + " source right after copying")
    if case["m"] == "copy":
        compare(observe(cp), before, where + " copy right after copying")
    st.step(shared(src, cp, where))
    ns = nc = 0
    for actor, op in case["ops"]:
        do(src if actor == "s" else cp, op)
        st.step()
    want_s = fresh()
    for actor, op in case["ops"]:
        if actor == "s":
            do(want_s, op)
    got_s = observe(src)
    compare(got_s, observe(want_s), where + " source")
    want_c = fresh()
    if case["m"] != "copy":
        want_c = mk_copy(want_c, case["m"])
    for actor, op in case["ops"]:
        if actor == "c":
            do(want_c, op)
    got_c = observe(cp)
    compare(got_c, observe(want_c), where + " copy")
    shared(src, cp, where)
    st.state(R.digest(*[
        v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode()
        for d in (got_s, got_c) for v in d.values()]))
    return st
