"""C03: spin elements represent the true spin operators in every basis."""
import itertools
from math import comb

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R, fock
from quantum_systems import (BasisSet, GeneralOrbitalSystem,
                             SpatialOrbitalSystem)

RULE = """
A case is (contents, history of basis changes / conversion / request / copy).
Every history up to the depth bound that contains a conversion is executed on
the real objects.  Checked in the state it reaches: spin elements against the
from-scratch reference; angular-momentum algebra with respect to the overlap;
one-body spin-squared = 3/4 overlap; two-body part = sum of products; and, when
the basis is orthonormal, the complete many-particle S^2 operator (every
particle number, full Fock space): equal to Sx^2+Sy^2+Sz^2 as an operator and
with exactly the eigenvalue multiplicities of the Weyl-Paldus formula.
Non-trivial: a conversion happened.
"""
ASSUMPTIONS = ["Fock-space part: at most three spatial orbitals"]

FIX = {
    "e1": dict(l=1, cplx=False, s="eye", spf=None, dip=False),
    "e2": dict(l=2, cplx=False, s="eye", spf=None, dip=False),
    "p1": dict(l=1, cplx=True, s="pos", spf=None, dip=False),
    "p2": dict(l=2, cplx=True, s="pos", spf=None, dip=False),
    "r2": dict(l=2, cplx=False, s="pos", spf="ket"),
    "e3": dict(l=3, cplx=True, s="eye", spf=None, dip=False),
    "i2": dict(l=2, sym="int", spf=None),
    "g3": dict(l=3, cplx=True, s="grade", spf=None, dip=False),
    "g5": dict(l=5, cplx=True, s="grade", spf=None, dip=False),
    "p3": dict(l=3, cplx=True, s="pos", spf=None, dip=False),
}
PRE = ["cb:U", "cb:N", "cb:O", "cb:X", "cb:B"]
DBL = [f"dbl:{b}:{a}" for b in R.SPIN_BASES for a in (0, 1)]
POST = ["cb:U", "cb:O", "cb:N", "cb:X", "cb:B", "as", "copy", "cast"]


def bounds(tier):
    q = tier == "quick"
    return dict(pre_depth=1, post_depth=2 if q else 3, pre=PRE, conversions=DBL,
                post=POST, contents=FIX, size_sweep=[4, 5, 6] if q else
                [4, 5, 6, 7, 8])


def cases(tier):
    b = bounds(tier)
    for dpost in range(b["post_depth"] + 1):
        for f in FIX:
            if FIX[f].get("s") == "grade" and dpost > 1:
                continue
            if dpost == 3 and FIX[f]["l"] == 3:
                continue
            for dpre in range(b["pre_depth"] + 1):
                for pre in itertools.product(PRE, repeat=dpre):
                    for d in DBL:
                        if dpost >= 2 and d.split(":")[1] not in ("z", "gen"):
                            continue
                        for post in itertools.product(POST, repeat=dpost):
                            for wrap in (("basis", "system") if dpost < 2
                                         else ("system",)):
                                yield dict(fx=f, wrap=wrap,
                                           hist=[*pre, d, *post])
    for l in b["size_sweep"]:
        for s in ("eye", "pos", "grade"):
            for d in DBL:
                for post in ([], ["cb:U"], ["as"]):
                    yield dict(size=l, s=s, wrap="basis", hist=[d, *post])


def apply(op, obj, ref, wrap):
    k = op.split(":")
    bs = obj if wrap == "basis" else R.basis_of(obj)
    if k[0] == "cb":
        if k[1] == "O":
            s = ref.obs()["s"]
            if np.max(np.abs(s - s.conj().T)) > 1e-10:
                raise Infeasible
            w, v = np.linalg.eigh(s)
            if w.min() < 1e-3:
                raise Infeasible
            C, Ct = v @ np.diag(w ** -0.5) @ v.conj().T, None
        else:
            C, Ct = R.coeff(k[1], ref.l)
        args = (R.frozen(C),) if Ct is None else (R.frozen(C), R.frozen(Ct))
        obj.change_basis(*args)
        ref.change_basis(C, Ct)
    elif k[0] == "dbl":
        a, b = R.SPIN_BASES[k[1]]
        as_ = k[2] == "1"
        if wrap == "basis":
            bs.change_to_general_orbital_basis(a=a, b=b, anti_symmetrize=as_)
        else:
            obj = obj.construct_general_orbital_system(
                a=a, b=b, anti_symmetrize=as_)
        ref.double(k[1], as_)
    elif k[0] == "as":
        bs.anti_symmetrize_two_body_elements()
        ref.antisym()
    elif k[0] == "copy":
        obj = obj.copy_basis() if wrap == "basis" else obj.copy_system()
    elif k[0] == "cast":
        bs.cast_to_complex()
    return obj


def multiplicities(l, N):
    """{2S: number of states} for N electrons in l orbitals."""
    out = {}
    S2 = N % 2
    while S2 <= N and S2 <= 2 * l - N:
        d = (S2 + 1) * comb(l + 1, (N - S2) // 2) * comb(
            l + 1, (N + S2) // 2 + 1)
        assert d % (l + 1) == 0
        out[S2] = d // (l + 1) * (S2 + 1)
        S2 += 2
    return out


def fock_check(st, where, sx, sy, sz, s2, tb, as_, unit):
    n = len(sx)
    tol = max(1e-8, 1e-12 * unit * n ** 2)
    etol = max(1e-6, 10 * tol * n ** 2)
    if etol > 0.05:
        return  # an ill-conditioned path: rounding alone hides the spectrum
    S = [fock.one_body(np.asarray(x)) for x in (sx, sy, sz)]
    want = sum(x @ x for x in S)
    got = fock.one_body(np.asarray(s2)) + (
        0.5 if as_ else 1.0) * fock.two_body(np.asarray(tb))
    if np.max(np.abs(got - want)) > tol:
        raise Violation(f"{where}: many-body S^2 differs from "
                        f"Sx^2+Sy^2+Sz^2 by {np.max(np.abs(got - want))}")
    num = fock.numbers(n)
    for N in range(n + 1):
        idx = np.flatnonzero(num == N)
        st.step()
        blk = got[np.ix_(idx, idx)]
        ev = np.linalg.eigvals(blk)
        if np.max(np.abs(ev.imag)) > etol:
            raise Violation(f"{where}: S^2 has complex eigenvalues, N={N}")
        ev = np.sort(ev.real)
        exp = []
        for S2, d in multiplicities(n // 2, N).items():
            exp += [S2 / 2 * (S2 / 2 + 1)] * d
        if len(exp) != len(ev) or np.max(
                np.abs(ev - np.sort(exp))) > etol:
            raise Violation(f"{where}: S^2 eigenvalues for N={N}: {ev}, "
                            f"expected {sorted(exp)}")


def run_case(case):
    st = Stats()
    kw = FIX[case["fx"]] if "fx" in case else dict(
        l=case["size"], cplx=True, s=case["s"], spf=None, dip=False)
    fx = R.Fx(**kw)
    ref = R.Ref(fx)
    obj = fx.build(BasisSet)
    wrap = case["wrap"]
    if wrap == "system":
        obj = SpatialOrbitalSystem(0, obj)
    for op in case["hist"]:
        obj = apply(op, obj, ref, wrap)
        st.step()
    where = str(case)
    names = ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
    o = R.read_obs(obj, names)
    R.compare_obs(o, ref.obs(), where, names, 1e-10, ref.floors())
    s = np.asarray(obj.s)
    sx, sy, sz = (np.asarray(o[n]) for n in names[:3])
    s2, tb = np.asarray(o["spin_2"]), np.asarray(o["spin_2_tb"])
    si = np.linalg.inv(s)
    scale = max(1.0, np.max(np.abs(s)), np.max(np.abs(sx)) ** 2 * np.max(
        np.abs(si)) * len(s) ** 2)
    fl = ref.floors()  # the unit of rounding error along this history
    scale = max(scale, fl["s"], fl["s"] ** 2 * np.max(np.abs(si)))
    tol = 1e-10 * scale
    for a, b, c, nm in ((sx, sy, sz, "xy"), (sy, sz, sx, "yz"),
                        (sz, sx, sy, "zx")):
        d = a @ si @ b - b @ si @ a - 1j * c
        if np.max(np.abs(d)) > tol:
            raise Violation(f"{where}: [S_{nm[0]}, S_{nm[1]}] violates the "
                            f"algebra by {np.max(np.abs(d))}")
    d = sum(a @ si @ a for a in (sx, sy, sz)) - s2
    if np.max(np.abs(d)) > tol or np.max(np.abs(s2 - 0.75 * s)) > tol:
        raise Violation(f"{where}: one-body S^2 is not 3/4 of the overlap")
    p = sum(np.einsum("pr,qs->pqrs", a, a) for a in (sx, sy, sz))
    as_ = obj.anti_symmetrized_u if wrap == "basis" else (
        R.basis_of(obj).anti_symmetrized_u)
    if as_ != ref.as_:
        raise Violation(f"{where}: anti-symmetrisation flag {as_}")
    if as_:
        p = p - p.transpose(0, 1, 3, 2)
    if not R.close(tb, p, 1e-10, max(np.max(np.abs(p)),
                                        fl["spin_2_tb"], 1e-300)):
        raise Violation(f"{where}: two-body S^2 is not the sum of products")
    if len(s) <= 6 and np.max(np.abs(s - np.eye(len(s)))) < 1e-9:
        fock_check(st, where, sx, sy, sz, s2, tb, as_, fl["spin_2_tb"])
    st.state(R.digest(*[np.round(np.asarray(o[n]), 6).tobytes()
                        for n in names]))
    return st
