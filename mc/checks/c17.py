"""C17: sinc-DVR storage formats describe the same system."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc.core import Infeasible, Stats, Violation, frames_in_repo
from mc import ref as R
from mc.checks.c14 import near
from mc.checks.c16 import POT
from quantum_systems import (
    GeneralOrbitalSystem, ODSincDVR, SpatialOrbitalSystem)
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as P

RULE = """
A case is (a) one point of the parameter lattice, every element and function
compared with the defining formula; (b) one history of format switches,
conversions, anti-symmetrisation, basis changes, copies and system
constructions, run in lock step on a set that started condensed and one that
started full (and with spare parameters), both compared with the from-scratch
reference after every step; (c) one direct transformation call.  A format
switch may be refused; if accepted the operator must be unchanged.
Non-trivial: always.
"""
ASSUMPTIONS = ["the spin matrices, which the condensed format does not carry, "
               "are judged in C02-C04"]
CHUNK = 32
NAMES = ("h", "s", "u", "dipole_moment", "spf", "bra_spf")
OPS = ["repr2", "repr4", "dbl:z:0", "dbl:gen:1", "as", "cb:U", "cb:X", "cb:S",
       "cb:P", "cb:G", "copy", "cast", "mk:0", "mk:1", "setu:c", "setu:z", "setu:x", "setu:t"]
SYS = ["repr2", "repr4", "gos0", "gos1", "as", "cb:U", "cb:X", "cb:S", "cb:P",
       "copy"]
SETS = {"3": dict(l=3, L=2.0, a=0.3, alpha=1.5, beta=0.2),
        "2": dict(l=2, L=1, a=0.25, alpha=-1.0, beta=0),
        "4dw": dict(l=4, L=4, a=1, alpha=1.0, beta=0, pot="dw")}


def depth(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return dict(depth=depth(tier), alphabet=OPS, system_alphabet=SYS,
                sets=SETS, lattice=dict(
                    l="2..10, 16, 17, 20, 25, 33, 41, 64, 101", potentials=sorted(POT),
                    a=[0.25, 1, 2.0, -0.4], alpha=[1.0, 0, -2], beta=[0, 0.3, -1]))


def cases(tier):
    for rep in ("2d", "4d", None):
        for l in list(range(2, 11)) + [16, 17, 20, 25, 33, 41, 64, 101]:
            if l > 20 and rep == "4d":
                continue
            for L in (1, 5.0, 10):
                for i, a in enumerate((0.25, 1, 2.0, -0.4)):
                    for j, al in enumerate((1.0, 0, -2)):
                        if l > 10 and (i, j) not in ((0, 0), (1, 2), (3, 0)):
                            continue
                        yield dict(form=rep, l=l, L=L, a=a, alpha=al,
                                   beta=(0, 0.3, -1)[(i + j) % 3], pot="none")
        for pot in POT:
            for l in (2, 3, 6, 9):
                yield dict(form=rep, l=l, L=4, a=0.5, alpha=1.2, beta=0.1,
                           pot=pot)
    for l in (2, 3, 5):
        yield dict(form=None, l=l, L=3, a=0.25, alpha=1.0, beta=0, pot="none",
                   defaults=1)
        yield dict(form="2d", l=l, L=3, a=0.25, alpha=1.0, beta=0.5, pot="dw",
                   shim=1)
        yield dict(form="4d", l=l, L=3, a=0.25, alpha=1.0, beta=0.5, pot="dw",
                   shim=1)
    for s in SETS:
        for kind in ("U", "N", "X", "S", "SX", "G", "P", "I", "FT", "unit"):
            for spin in (0, 1):
                yield dict(trans=kind, set=s, spin=spin)
    for d in range(1, depth(tier) + 1):
        for s in SETS:
            for h in itertools.product(OPS, repeat=d):
                yield dict(hist=list(h), set=s, wrap="basis")
            for h in itertools.product(SYS, repeat=d):
                yield dict(hist=list(h), set=s, wrap="system")


def build(c, rep, shim=False):
    kw = dict(a=c["a"], alpha=c["alpha"], beta=c["beta"])
    if c.get("defaults"):
        kw = {}
    pot = POT[c.get("pot", "none")]()
    if pot is not None:
        kw["potential"] = pot
    if rep:
        kw["u_repr"] = rep
    if shim:
        kw["np"] = R.SHIM
    return ODSincDVR(c["l"], c["L"], **kw)


class Form:
    """The defining formulas."""

    def __init__(self, c):
        l, L = c["l"], c["L"]
        x = np.array([-L + 2 * L * i / (l - 1) for i in range(l)])
        dx = 2 * L / (l - 1)
        pot = POT[c.get("pot", "none")]() or P.HOPotential(0.25)
        self.x = x
        h = np.diag(math.pi ** 2 / (6 * dx ** 2) + np.asarray(pot(x)))
        for i in range(l):
            for j in range(l):
                if i != j:
                    h[i, j] = (-1) ** (i - j) / (dx ** 2 * (i - j) ** 2)
        self.h = h
        self.s = np.eye(l)
        self.u2 = c["alpha"] / np.sqrt((x[:, None] - x) ** 2 + c["a"] ** 2)
        self.u = full(self.u2) if l <= 32 else self.u2
        self.dip = np.diag(x + c["beta"] * x ** 2)[None]
        self.spf = np.eye(l) / math.sqrt(dx)
        self.bra = None
        self.l, self.dim, self.spin, self.nuc = l, 1, False, 0


def full(u):
    if np.ndim(u) == 4:
        return np.asarray(u)
    l = len(u)
    v = np.zeros((l,) * 4, dtype=complex)
    for p in range(l):
        for q in range(l):
            v[p, q, p, q] = u[p, q]
    return v


def check(bs, ref, where, what=""):
    got = R.read_obs(bs, NAMES)
    if np.ndim(got["u"]) not in (2, 4) or np.shape(got["u"])[0] != ref.l:
        raise Violation(f"{where}: u has shape {np.shape(got['u'])}")
    got["u"] = full(got["u"])
    R.compare_obs(got, ref.obs(), where, NAMES, 1e-11, ref.floors())
    if bs.l != ref.l or bs.includes_spin != ref.spin or \
            bs.anti_symmetrized_u != ref.as_:
        raise Violation(f"{where}: l={bs.l}, includes_spin={bs.includes_spin},"
                        f" anti_symmetrized_u={bs.anti_symmetrized_u}")


def switch(bs, rep, where):
    try:
        bs.set_u_repr(rep)
    except Exception as e:  # noqa
        if not frames_in_repo(e):
            raise
        if np.ndim(bs.u) == 2:
            raise Violation(f"{where}: switch to {rep} refused: {e!r}")
        return
    if np.ndim(bs.u) != int(rep[0]):
        raise Violation(f"{where}: after set_u_repr({rep!r}) u has "
                        f"{np.ndim(bs.u)} axes")


def run_case(case):
    with contextlib.redirect_stdout(io.StringIO()):
        if "trans" in case:
            return trans(case)
        if "hist" in case:
            return hist(case)
        return form(case)


def form(case):
    st = Stats()
    bs = build(case, case["form"], case.get("shim"))
    f = Form(case)
    st.step()
    near(bs.grid, f.x, "grid", case, 1e-12)
    near(bs.h, f.h, "h", case, 1e-11)
    near(bs.s, f.s, "s", case, 1e-12)
    near(bs.dipole_moment, f.dip, "dipole", case, 1e-11)
    near(bs.spf, f.spf, "spf", case, 1e-11)
    u = np.asarray(bs.u)
    want = "2d" if case["form"] is None else case["form"]
    if u.ndim != int(want[0]):
        raise Violation(f"{case}: u has shape {u.shape}")
    if case["l"] > 32:  # the full array would not fit
        near(u, f.u2, "u", case, 1e-11)
    else:
        near(full(u), f.u, "u", case, 1e-11)
    if case["l"] <= 20:
        for rep in ("4d", "2d", "2d", "4d"):
            switch(bs, rep, str(case))
            near(full(bs.u), f.u, f"u after switch to {rep}", case, 1e-11)
            st.step()
    st.state(R.digest(repr(case)))
    return st


def trans(case):
    st = Stats()
    c = SETS[case["set"]]
    ref = R.Ref(Form(c))
    objs = [build(c, "2d"), build(c, "4d")]
    if case["spin"]:
        ref.double("z", False, with_spin=False)
        for b in objs:
            b.change_to_general_orbital_basis(anti_symmetrize=False)
    l = ref.l
    if case["trans"] == "unit":
        mats = [(m.reshape(l, 2), None) for m in np.eye(2 * l)]
    else:
        mats = [R.coeff(case["trans"], l)]
    for C, Ct in mats:
        for tilde in (Ct, None):
            r = ref.clone()
            r.change_basis(C, tilde)
            want = r.obs()["u"]
            fl = r.floors()["u"]
            for b in objs:
                rep = np.ndim(b.u)
                for as_ in (False, True) if rep == 2 else (False,):
                    kw = dict(anti_symmetrize=True) if as_ else {}
                    if tilde is not None:
                        kw["C_tilde"] = R.frozen(tilde)
                    got = b.transform_two_body_elements(
                        b.u, R.frozen(C), np=b.np, **kw)
                    st.step()
                    w = want - np.swapaxes(want, 2, 3) if as_ else want
                    if not R.close(got, w, 1e-11, fl):
                        raise Violation(
                            f"{case}: transformed elements ({rep}d, "
                            f"anti_symmetrize={as_}, C_tilde given: "
                            f"{tilde is not None}) "
                            f"{R.describe('u', got, w)}")
                if tilde is None:
                    got = b.get_transformed_u(R.frozen(C))
                    if not R.close(got, want, 1e-11, fl):
                        raise Violation(f"{case}: get_transformed_u ({rep}d) "
                                        f"{R.describe('u', got, want)}")
                check(b, ref, f"{case}: stored elements afterwards")
    st.state(R.digest(repr(case)))
    return st


def hist(case):
    st = Stats()
    c = SETS[case["set"]]
    ref = R.Ref(Form(c))
    objs = [build(c, "2d"), build(c, "4d")]
    sysw = case["wrap"] == "system"
    K0 = ref.K
    if sysw:
        objs = [SpatialOrbitalSystem(2, o) for o in objs]
    for i, op in enumerate(case["hist"]):
        k = op.split(":")
        where = f"{case['set']}/{case['wrap']} after {case['hist'][:i + 1]}"
        new = ref.clone()
        if k[0] == "cb":
            if ref.l > 8 or (sysw and k[1] == "S" and ref.l < 3):
                raise Infeasible
            C, Ct = R.coeff(k[1], ref.l)
            new.change_basis(C, Ct)
        elif k[0] == "dbl":
            if ref.spin or ref.l > 4:
                raise Infeasible
            new.double(k[1], k[2] == "1", with_spin=False)
        elif k[0] in ("gos0", "gos1"):
            if ref.spin or ref.l > 4:
                raise Infeasible
            new.double("z", k[0] == "gos1", with_spin=False)
        elif k[0] == "mk":
            if ref.l > 8 or (not ref.spin and ref.l > 4):
                raise Infeasible
            new.double("z", False, with_spin=False)
            if k[1] == "1":
                new.antisym()
        elif k[0] == "as":
            if not ref.spin:
                raise Infeasible
            new.antisym()
        elif k[0] == "setu":  # other elements: complex, with zeros, not local
            if ref.spin or ref.K is not K0:
                raise Infeasible
            u2 = R.generic((ref.l,) * 2, k[1] == "c", "setu")
            u2[0, -1] = u2[-1, -1] = 0
            new.u0 = full(u2)
            if k[1] == "t":  # nearly of the condensed form
                new.u0[0, 1, 1, 0] = new.u0[1, 0, 0, 1] = 1e-8
            if k[1] == "x":
                new.u0[0, 0, 0, 1], new.u0[0, 0, 1, 0] = 0.5, -0.5
        for j, o in enumerate(objs):
            b = R.basis_of(o) if sysw else o
            w = where + f" started {('condensed', 'full')[j]}"
            if k[0] in ("repr2", "repr4"):
                switch(b, k[0][-1] + "d", w)
            elif k[0] == "cb":
                if Ct is None:
                    o.change_basis(R.frozen(C))
                else:
                    o.change_basis(R.frozen(C), R.frozen(Ct))
            elif k[0] == "dbl":
                a_, b_ = R.SPIN_BASES[k[1]]
                o.change_to_general_orbital_basis(
                    a=a_, b=b_, anti_symmetrize=k[2] == "1")
            elif k[0] in ("gos0", "gos1"):
                objs[j] = o.construct_general_orbital_system(
                    anti_symmetrize=k[0] == "gos1")
                check(b, ref, w + ", source system")
            elif k[0] == "mk":
                objs[j] = R.basis_of(GeneralOrbitalSystem(
                    1, o, anti_symmetrize=k[1] == "1"))
            elif k[0] == "as":
                b.anti_symmetrize_two_body_elements()
            elif k[0] == "setu":
                b.u = u2.copy() if np.ndim(b.u) == 2 and k[1] not in "xt" else \
                    new.u0.copy()
            elif k[0] == "cast":
                b.cast_to_complex()
            elif k[0] == "copy":
                objs[j] = o.copy_system() if sysw else o.copy_basis()
                check(b, ref, w + ", source of the copy")
            st.step()
            o = objs[j]
            check(R.basis_of(o) if sysw else o, new, w)
        ref = new
    st.state(R.state_key(ref))
    return st
