"""C09: time-dependent Hamiltonians are the documented function of time."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, ODQD, ODSincDVR,
    RandomBasisSet)
from quantum_systems.time_evolution_operators import (
    AdiabaticSwitching, CustomOneBodyOperator, LaserField)
from quantum_systems.time_evolution_operators.operator import (
    TimeEvolutionOperator)

RULE = """
A case is (contents, container, history).  All histories of installing,
replacing and removing operators of every kind, evaluating at different times,
basis changes, element replacement, copies and conversion to general orbitals
up to the depth bound are executed.  In the final state h_t and u_t are
evaluated at every time of the lattice, forwards and backwards, and compared
with the documented formula over the from-scratch reference elements; the flags
are compared too.  Non-trivial: an operator is installed at some point.
"""
ASSUMPTIONS = []
TIMES = [0, 0.25, -1.5, 7.0, np.float64(1e3), 0]
# a propagation: nearly equal, repeated and many times
LONG = [0.25, 0.25 + 1e-9, 0.25 - 1e-9, 0.25 + 1e-7, 0.25 + 1e-5, 0.2501, 0.25,
        -0.25, -0.0, 1e-300, 1 / 3, np.float32(0.25), np.int64(2), 2, True,
        1e6, 1e6 + 1e-3] + [0.01 * i for i in range(300)] + [
            0.01 * i for i in range(299, -1, -7)]


# evaluated in the middle of a history: times that are evaluated again at the
# end, the last of them first
MID = [7.0, 0.25, 0]


class Pulse:
    def __init__(self, w):
        self.w = w

    def __call__(self, t):
        return np.cos(self.w * t) + 0.3


def pol_vec(dim):
    return np.array([0.3, -0.8, 0.5, 0.9, -0.6])[:dim] + 0.1


OPS = ["set:L0", "set:Lc", "set:Lv", "set:Ll", "set:Lt", "set:Lx", "set:Lz", "set:Lq", "set:Ls", "set:As", "set:Aa", "set:La", "set:Le", "set:Lm", "set:L-", "set:Lw", "set:Cs", "set:Ct",
       "set:Li", "set:Ao", "set:Ac", "set:A0", "set:Ax", "set:An", "set:Co",
       "set:Cc", "set:Cx", "set:base", "set:sub", "set:none", "ev", "cb:U", "cb:X", "cb:S", "copy", "con0",
       "con1", "seth", "setd", "setu", "wh", "wd", "wu", "mod", "reset"]
# what replaces the elements, the representation or the system
CHANGE = ["seth", "setd", "setu", "wh", "wd", "wu", "cb:U", "cb:X", "cb:S",
          "copy", "con0", "con1", "mod", "reset"]
CORE = ["set:L0", "set:Lc", "set:Lt", "set:Ao", "set:Co", "set:none", "ev",
        "cb:U", "cb:S", "copy", "con1"]
DOC = {
    # kind: (one-body weight(t), polarisation(t), two-body weight(t), flags)
}


class Sub(TimeEvolutionOperator):
    """A user-defined operator acting on both parts."""

    @property
    def is_one_body_operator(self):
        return True

    @property
    def is_two_body_operator(self):
        return True

    def set_system(self, system):
        super().set_system(system)
        self.of = system

    def h_t(self, t):
        return self.of.h * (1 + t)

    def u_t(self, t):
        return self.of.u * (2 - t)


CUSTOM = {"Cs": lambda t: 1e-13 * (2 + t), "Ct": lambda t: 1e-17 * (2 + t),
          "Co": lambda t: 0.4 * t + 1j, "Cc": -0.6, "Cx": 0.1 - 0.7j}


def custom_matrix(l):
    return R.generic((l, l), True, "custom9")


def make(kind, l, dim):
    """Returns (operator, model); model(t, h, u, d) -> (h_t, u_t)."""
    e0 = np.eye(dim)[0]

    def laser(pulse, pol):
        return lambda t, h, u, d: (
            h + pulse(t) * np.einsum("x,xpq->pq", np.asarray(pol(t)), d), u)

    v = pol_vec(dim)
    if kind == "L0":  # constant pulse, default polarisation
        return LaserField(0.7), laser(lambda t: 0.7, lambda t: e0), (1, 0)
    if kind == "Lz":  # constant zero
        return LaserField(0), laser(lambda t: 0, lambda t: e0), (1, 0)
    if kind == "Lc":
        f = Pulse(1.3)
        return LaserField(f), laser(f, lambda t: e0), (1, 0)
    if kind == "Lv":
        f = Pulse(0.4)
        return LaserField(f, R.frozen(v)), laser(f, lambda t: v), (1, 0)
    if kind == "Ll":
        return (LaserField(np.float64(-0.2), list(v)),
                laser(lambda t: -0.2, lambda t: v), (1, 0))
    if kind == "Lt":
        def pol(t):
            return np.array([np.cos(t), np.sin(t), t, t * t, 1 - t])[:dim]

        return (LaserField(lambda t: t * t - 1, pol),
                laser(lambda t: t * t - 1, pol), (1, 0))
    if kind == "Lq":  # callable polarisation returning a list; fast pulse
        def pol(t):
            return [1 - t, 1e4 * t, np.sin(1e3 * t), t, 2 + t][:dim]

        return (LaserField(lambda t: np.sin(1e5 * t), pol),
                laser(lambda t: np.sin(1e5 * t), pol), (1, 0))
    if kind == "Lx":  # complex pulse and polarisation
        p = v * np.exp(1j * np.arange(dim))
        return (LaserField(lambda t: np.exp(1j * t), polarization_vector=p),
                laser(lambda t: np.exp(1j * t), lambda t: p), (1, 0))
    if kind in ("Lm", "L-", "Lw"):  # against one axis; scaled axis; nothing
        p = {"Lm": -np.eye(dim)[-1], "L-": np.array([-2, 0, 0, 0, 0])[:dim],
             "Lw": np.zeros(dim)}[kind]
        f = Pulse(0.9)
        return LaserField(f, R.frozen(p)), laser(f, lambda t: p), (1, 0)
    if kind == "La":  # nearly constant
        return (LaserField(lambda t: 1 + 1e-10 * (2 + t), np.eye(dim)[-1]),
                laser(lambda t: 1 + 1e-10 * (2 + t),
                      lambda t: np.eye(dim)[-1]), (1, 0))
    if kind == "Ls":  # a weak field
        return (LaserField(lambda t: 1e-13 * (2 + t), 1e-3 * v),
                laser(lambda t: 1e-13 * (2 + t), lambda t: 1e-3 * v), (1, 0))
    if kind == "Le":  # a very weak field; see also the huge dipole elements
        return (LaserField(lambda t: 1e-14 * (2 + t), v),
                laser(lambda t: 1e-14 * (2 + t), lambda t: v), (1, 0))
    if kind == "Li":  # integer scalar of the array module
        return (LaserField(np.int64(2)), laser(lambda t: 2, lambda t: e0),
                (1, 0))
    if kind in ("Ao", "Ac", "A0", "Ax", "An", "As", "Aa"):
        f = {"Ao": lambda t: 1 - 0.5 * t, "Ac": lambda t: 0.3,
             "A0": lambda t: 0, "Ax": lambda t: 0.3 - 0.2j,
             "An": lambda t: 2,
             "Aa": lambda t: 1 - 1e-10 * (2 + t),  # nearly switched on
             "As": lambda t: 1e-13 * (2 + t)}[kind]
        op = AdiabaticSwitching({"Ao": f, "Ac": 0.3, "A0": 0, "Ax": 0.3 - 0.2j,
                                 "An": np.int64(2),
                                 "Aa": f, "As": f}[kind])
        return op, (lambda t, h, u, d: (h, f(t) * u)), (0, 1)
    if kind in CUSTOM:
        m = custom_matrix(l)
        w = CUSTOM[kind]
        f = w if callable(w) else (lambda t: w)
        return (CustomOneBodyOperator(w, R.frozen(m)),
                (lambda t, h, u, d: (h + f(t) * m, u)), (1, 0))
    if kind == "base":
        class Nothing(TimeEvolutionOperator):
            pass

        return Nothing(), (lambda t, h, u, d: (h, u)), (0, 0)
    if kind == "sub":
        return Sub(), (lambda t, h, u, d: (h * (1 + t), u * (2 - t))), (1, 1)
    return None, (lambda t, h, u, d: (h, u)), (0, 0)


KINDS = {
    "d1": dict(l=2, dim=1, spf=None),
    "d2": dict(l=2, dim=2, spf="ket"),
    "d3": dict(l=3, dim=3, spf=None),
    "r1": dict(l=2, dim=1, spf=None, cplx=False),
    "h2": dict(l=2, dim=2, spf=None, sym="herm"),
    "i3": dict(l=2, dim=3, spf=None, sym="int"),
    "h0": dict(l=2, dim=3, spf=None, zero_h=1),
    "tiny": dict(l=2, dim=2, spf=None, scale=1e-19),
    "hd": dict(l=2, dim=2, spf=None, dip_scale=1e16),
    "huge": dict(l=2, dim=3, spf=None, scale=1e16),
    "d4": dict(l=2, dim=4, spf=None),
    "d5": dict(l=2, dim=5, spf=None),
    "nod": dict(l=2, dim=1, spf=None, dip=False),
}
LARGE = {f"L{l}": dict(l=l, dim=1 + l % 3, spf=None) for l in (6, 8, 9, 11)}


def bounds(tier):
    q = tier == "quick"
    return dict(depth_full=2, depth_core=3 if q else 4, alphabet=OPS,
                evaluated_then_changed="every operator x 1 or 2 of",
                changes=CHANGE,
                core_alphabet=CORE, times=[float(t) for t in TIMES],
                contents=KINDS, sets=["ODQD", "ODSincDVR 2d/4d", "random"])


def cases(tier):
    b = bounds(tier)
    for d in (1, 2):
        for k in KINDS:
            for cont in ("spatial", "gos0", "gos1"):
                for h in itertools.product(OPS, repeat=d):
                    yield dict(kind=k, cont=cont, hist=list(h))
    for cls in ("odqd", "sinc2", "sinc4", "random"):
        for cont in ("spatial", "gos0", "gos1"):
            for o in [x for x in OPS if x.startswith("set:")]:
                for o2 in ("ev", "copy", "cb:U", "con1"):
                    yield dict(cls=cls, cont=cont, hist=[o, o2])
    for d in range(3, b["depth_core"] + 1):
        for k in ("d2",) if d == 4 else ("d1", "d2", "d3"):
            for cont in ("spatial", "gos1"):
                for h in itertools.product(CORE, repeat=d):
                    yield dict(kind=k, cont=cont, hist=list(h))
    # evaluated, changed (twice), evaluated again
    for o in [x for x in OPS if x.startswith("set:") and x != "set:none"]:
        for k in ("d2", "d3", "r1"):
            for cont in ("spatial", "gos1"):
                for c in CHANGE:
                    yield dict(kind=k, cont=cont, hist=[o, "ev", c])
                    for c2 in CHANGE if k == "d2" else ():
                        yield dict(kind=k, cont=cont, hist=[o, "ev", c, c2])
                        if tier != "quick":
                            yield dict(kind=k, cont=cont,
                                       hist=[o, "ev", c, "ev", c2])
    for o in [x for x in OPS if x.startswith("set:")]:
        for k in LARGE:
            for cont in ("spatial", "gos1"):
                for h in ([o], [o, "ev", "copy"], [o, "cb:U"]):
                    yield dict(kind=k, cont=cont, hist=h)
        for k in ("d1", "d3", "r1", "h2"):
            for cont in ("spatial", "gos1"):
                for h in ([o], [o, "copy"], [o, "con1"], [o, "cb:U"]):
                    yield dict(kind=k, cont=cont, hist=h, long=1)
    for o in [x for x in OPS if x.startswith("set:") and x != "set:none"]:
        yield dict(shared=o)


def evaluate(sy, ref, model, flags, times, where, st):
    h, u, d = ref
    for t in times:
        wh, wu = model(t, h, u, d)
        st.step(2)
        gh, gu = sy.h_t(t), sy.u_t(t)
        if not R.close(gh, wh, 1e-12, np.max(np.abs(h))):
            raise Violation(f"{where}, t={t}: {R.describe('h_t', gh, wh)}")
        # the rounding unit of the elements (which may vanish up to rounding)
        # times the factor the model applies to them
        f = np.max(np.abs(model(t, h, np.ones_like(u), d)[1]))
        fl = f * max(1.0, np.max(np.abs(u)))
        if not R.close(gu, wu, 1e-12, fl):
            raise Violation(f"{where}, t={t}: {R.describe('u_t', gu, wu)}")
    got = (sy.has_one_body_time_evolution_operator,
           sy.has_two_body_time_evolution_operator)
    if (bool(got[0]), bool(got[1])) != (bool(flags[0]), bool(flags[1])):
        raise Violation(f"{where}: declares time dependence {got}, has "
                        f"{flags}")
    for n, w in (("h", h), ("u", u), ("dipole_moment", d)):
        g = getattr(sy, n)
        if not R.same(g, w, 1e-11, 1.0):
            raise Violation(f"{where}: static elements: {R.describe(n, g, w)}")


def shared(case):
    """One operator installed in two systems."""
    st = Stats()
    kind = case["shared"].split(":")[1]
    a = SpatialOrbitalSystem(0, R.Fx(l=2, dim=2, spf=None).build(BasisSet))
    fb = R.Fx(l=2, dim=2, spf=None, scale=3.0)
    fb.h = fb.h.T.copy()
    b = SpatialOrbitalSystem(0, fb.build(BasisSet))
    op, model, flags = make(kind, 2, 2)
    a.set_time_evolution_operator(op)
    evaluate(a, (np.array(a.h), np.array(a.u), np.array(a.dipole_moment)),
             model, flags, TIMES, "first system", st)
    b.set_time_evolution_operator(op)
    evaluate(b, (np.array(b.h), np.array(b.u), np.array(b.dipole_moment)),
             model, flags, TIMES, "second system with the same operator", st)
    st.state(R.digest(str(case)))
    evaluate(a, (np.array(a.h), np.array(a.u), np.array(a.dipole_moment)),
             model, flags, TIMES, "first system after its operator was also "
             "installed in a second one", st)
    return st


def run_case(case):
    if "shared" in case:
        return shared(case)
    st = Stats()
    where = str(case)
    hist = case["hist"]
    st.nontrivial = any(o.startswith("set:") and o != "set:none" for o in hist)
    if "cls" in case:
        bs = {"odqd": lambda: ODQD(2, 3, 9, beta=0.2),
              "sinc2": lambda: ODSincDVR(3, 2, beta=0.3),
              "sinc4": lambda: ODSincDVR(3, 2, u_repr="4d"),
              "random": lambda: RandomBasisSet(2, 2)}[case["cls"]]()
    else:
        kw = dict({**KINDS, **LARGE}[case["kind"]])
        zero = kw.pop("zero_h", 0)
        dip = kw.pop("dip_scale", 1)
        bs = R.Fx(**kw).build(BasisSet)
        if dip != 1:
            bs.dipole_moment = dip * bs.dipole_moment
        if zero:
            bs.h = 0 * bs.h
    dim = bs.dim
    sy = (SpatialOrbitalSystem(0, bs) if case["cont"] == "spatial" else
          GeneralOrbitalSystem(0, bs, anti_symmetrize=case["cont"] == "gos1"))

    def elements(sy):
        d = sy.dipole_moment
        return (np.array(sy.h), np.array(sy.u),
                None if d is None else np.array(d))

    ref = elements(sy)
    op, model, flags = make("none", sy.l, dim)
    size = None  # size of a custom operator
    kind = owner = None
    for o in hist:
        k = o.split(":")
        st.step()
        if k[0] == "set":
            if k[1].startswith("L") and ref[2] is None:
                raise Infeasible
            op, model, flags = make(k[1], sy.l, dim)
            kind = k[1]
            size = sy.l if k[1].startswith("C") else None
            sy.set_time_evolution_operator(op)
            owner = sy
        elif k[0] == "reset":  # install the same operator again
            if op is None or owner is not sy:
                raise Infeasible
            sy.set_time_evolution_operator(op)
        elif k[0] == "ev":
            evaluate(sy, ref, model, flags, MID, where + " (midway)", st)
        elif k[0] == "cb":
            C, Ct = R.coeff(k[1], sy.l)
            sy.change_basis(C, Ct)
            Ct = C.conj().T if Ct is None else Ct
            h, u, d = ref
            if u.ndim == 2:
                U = np.zeros((len(u),) * 4, dtype=complex)
                i = np.arange(len(u))
                U[i[:, None], i, i[:, None], i] = u
                u = U
            ref = (Ct @ h @ C,
                   np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C,
                             optimize=True),
                   None if d is None else np.array([Ct @ x @ C for x in d]))
            if size is not None and size != sy.l:
                raise Infeasible
        elif k[0] == "copy":
            sy = sy.copy_system()
        elif k[0] in ("con0", "con1"):
            if not isinstance(sy, SpatialOrbitalSystem):
                raise Infeasible
            plain = SpatialOrbitalSystem(0, R.basis_of(sy).copy_basis())
            sy = sy.construct_general_orbital_system(
                anti_symmetrize=k[0] == "con1")
            g = plain.construct_general_orbital_system(
                anti_symmetrize=k[0] == "con1")
            ref = elements(g)
            if size is not None:
                m = np.kron(custom_matrix(size), np.eye(2))
                w = CUSTOM[kind]
                f = w if callable(w) else (lambda t, w=w: w)
                model = (lambda t, h, u, d, f=f, m=m: (h + f(t) * m, u))
                size = sy.l
        elif k[0][:-1] in ("set", "w"):  # replaced / written in place
            i = "hud".index(k[0][-1])
            name = ("h", "u", "dipole_moment")[i]
            if ref[i] is None or ref[i].ndim != (2, 4, 3)[i]:
                raise Infeasible
            x = R.generic(ref[i].shape, k[0][0] == "s", o)
            if k[0][0] == "s":
                setattr(R.basis_of(sy), name, x)
            else:
                a = getattr(R.basis_of(sy), name)
                if not a.flags.writeable:
                    raise Infeasible
                x = x if a.dtype.kind in "fc" else np.rint(9 * x)
                a[...] = x
            ref = ref[:i] + (x.copy(),) + ref[i + 1:]
        elif k[0] == "mod":
            if getattr(R.basis_of(sy), "sparse_repr", False):
                raise Infeasible
            sy.change_module(R.SHIM if sy.np is np else np)
    evaluate(sy, ref, model, flags, LONG if case.get("long") else
             TIMES + TIMES[::-1], where, st)
    st.state(R.digest(*[b"-" if x is None else np.round(x, 6).tobytes()
                        for x in ref], repr(kind)))
    return st
