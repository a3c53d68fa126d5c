"""C04: anti-symmetrised exactly once, and the flag tells."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (BasisSet, GeneralOrbitalSystem, ODSincDVR,
                             SpatialOrbitalSystem)

RULE = """
A case is (contents, history).  All histories over the alphabet of conversions,
requests, system constructions, re-wraps, basis changes and copies up to the
depth bound are executed on the real objects; the reference only remembers
whether a request was ever made.  Compared in the final state: u, spin_2_tb,
the flag, and the sign change under exchange.  Non-trivial: at least one
anti-symmetrisation request.
"""
ASSUMPTIONS = ["an explicit request on a basis without spin is outside the "
               "property (general-orbital bases only)"]
FIX = {
    "c2": dict(l=2, spf=None, dip=False),
    "r2": dict(l=2, cplx=False, s="eye", spf="ket"),
    "spin": dict(l=2, spin=True, spf=None, dip=False),
    "spin_as": dict(l=3, spin=True, spf=None, dip=False),
    "sinc2": None,
    "sinc4": None,
    "c1": dict(l=1, spf=None, dip=False),
    "herm": dict(l=2, spf=None, sym="herm"),
    "real8": dict(l=2, spf=None, cplx=False, sym="real8", lay="f"),
    "diag": dict(l=2, spf=None, cplx=False, sym="diag", s="eye", lay="view"),
    "zero": dict(l=2, spf=None, sym="zero"),
    "int": dict(l=2, spf=None, sym="int"),
}
OPS = ["dbl0", "dbl1", "as", "gos0", "gos1", "con0", "con1", "cbU", "cbX",
       "cbS", "copy"]


def bounds(tier):
    q = tier == "quick"
    return dict(depth={"default": 4 if q else 5, "sinc2": 4, "sinc4": 4,
                       "c1": 3 if q else 5, "herm": 3, "real8": 3, "diag": 3,
                       "zero": 3, "int": 3},
                alphabet=OPS, contents=FIX,
                size_sweep=list(range(3, 8)) if q else list(range(3, 11)))


def cases(tier):
    b = bounds(tier)
    for d in range(1, 6):
        for f in FIX:
            if d > b["depth"].get(f, b["depth"]["default"]):
                continue
            for h in itertools.product(OPS, repeat=d):
                yield dict(fx=f, hist=list(h))
    for l in b["size_sweep"]:
        for h in (["dbl1"], ["dbl0", "as"], ["gos1", "as"], ["gos0", "gos1"],
                  ["con1", "cbU", "as"], ["dbl0", "cbX", "gos1", "dbl1"],
                  ["dbl1", "cbS", "as", "cbS", "gos1", "cbS", "copy", "as"],
                  ["gos0", "cbS", "cbS", "as", "cbX", "cbS", "as"]):
            yield dict(size=l, hist=h)


def sinc_fx(bs):
    """Reference contents taken from the formula of the set, full storage."""
    fx = object.__new__(R.Fx)
    l = bs.l
    u = np.zeros((l,) * 4)
    x = np.linspace(-bs.grid_length, bs.grid_length, l)
    for p in range(l):
        for q in range(l):
            u[p, q, p, q] = bs.alpha / np.sqrt((x[p] - x[q]) ** 2 + bs.a ** 2)
    fx.__dict__.update(l=l, dim=1, h=np.array(bs.h), s=np.eye(l), u=u, dip=None,
                       spf=None, bra=None, spin=False, nuc=0)
    return fx


def run_case(case):
    st = Stats()
    hist = case["hist"]
    st.nontrivial = any(o in ("dbl1", "as", "gos1", "con1") for o in hist)
    f = case.get("fx")
    if f in ("sinc2", "sinc4"):
        bs = ODSincDVR(2, 1.5, a=0.3, alpha=1.3, u_repr=f[-1] + "d")
        ref = R.Ref(sinc_fx(bs))
    else:
        fx = R.Fx(**(FIX[f] if f else dict(l=case["size"], spf=None,
                                           dip=False)))
        bs = fx.build(BasisSet)
        ref = R.Ref(fx)
        if f == "spin_as":
            b2 = BasisSet(fx.l, fx.dim, includes_spin=True,
                          anti_symmetrized_u=True)
            b2.h, b2.s = bs.h, bs.s
            b2.u = bs.u - bs.u.transpose(0, 1, 3, 2)
            bs = b2
            ref.as_ = True
    for op in hist:
        st.step()
        if op in ("dbl0", "dbl1"):
            two_d = np.ndim(bs.u) == 2
            done = ref.spin
            bs.change_to_general_orbital_basis(anti_symmetrize=op == "dbl1")
            if not done:
                ref.double("z", op == "dbl1",
                           with_spin=not two_d or op == "dbl1")
        elif op == "as":
            if not ref.spin:
                raise Infeasible
            bs.anti_symmetrize_two_body_elements()
            ref.antisym()
        elif op in ("gos0", "gos1"):
            two_d = np.ndim(bs.u) == 2
            g = GeneralOrbitalSystem(min(1, bs.l), bs,
                                     anti_symmetrize=op == "gos1")
            bs = R.basis_of(g)
            if not ref.spin:
                ref.double("z", op == "gos1",
                           with_spin=not two_d or op == "gos1")
            elif op == "gos1":
                ref.antisym()
        elif op in ("con0", "con1"):
            if ref.spin:
                raise Infeasible
            two_d = np.ndim(bs.u) == 2
            src = bs
            bs = R.basis_of(SpatialOrbitalSystem(
                0, bs).construct_general_orbital_system(
                    anti_symmetrize=op == "con1"))
            if src.anti_symmetrized_u or src.includes_spin:
                raise Violation(f"{case}: source was changed")
            ref.double("z", op == "con1", with_spin=not two_d or op == "con1")
        elif op in ("cbU", "cbX", "cbS"):
            C, Ct = R.coeff(op[2:], ref.l)
            bs.change_basis(C, Ct)
            ref.change_basis(C, Ct)
        elif op == "copy":
            bs = bs.copy_basis()
    where = str(case)
    o = ref.obs()
    fl = ref.floors()
    u = np.asarray(bs.u)
    if u.ndim == 2:
        n = len(u)
        U = np.zeros((n,) * 4, dtype=complex)
        for p in range(n):
            for q in range(n):
                U[p, q, p, q] = u[p, q]
        u = U
        if ref.as_:
            raise Violation(f"{where}: anti-symmetrised but stored condensed")
    if not R.close(u, o["u"], R.TOL, fl["u"]):
        raise Violation(f"{where}: {R.describe('u', u, o['u'])}")
    if bool(bs.anti_symmetrized_u) != ref.as_:
        raise Violation(f"{where}: flag {bs.anti_symmetrized_u}, elements "
                        f"{'are' if ref.as_ else 'are not'} anti-symmetrised")
    if ref.as_ and not R.close(-u.transpose(0, 1, 3, 2), u, R.TOL, fl["u"]):
        raise Violation(f"{where}: no sign change under exchange")
    if not R.same(bs.spin_2_tb, o["spin_2_tb"], R.TOL, fl["spin_2_tb"]):
        # condensed storage keeps no spin elements
        raise Violation(
            f"{where}: {R.describe('spin_2_tb', bs.spin_2_tb, o['spin_2_tb'])}")
    st.state(R.digest(np.round(u, 6).tobytes(), ref.as_, bs.includes_spin))
    return st
