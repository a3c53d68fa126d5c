"""C15: 2D dot in a magnetic field holds the lowest Fock-Darwin states."""
import math

import numpy as np

from mc.core import Stats, Violation
from mc import ref as R
from mc.checks.c14 import dip, function, near
from mc.oracle2d import nm_list, table
from quantum_systems import (
    GeneralOrbitalSystem, TwoDimensionalHarmonicOscillator, TwoDimHarmonicOscB)

RULE = """
A case is one point of the lattice size x bare frequency x field (sign,
strength, level crossings) x mass x grid x module, followed by 0, 1 or 2
repeated set-ups.  The quantum numbers of each orbital are read off its
function on the grid; energies are compared with a brute-force list of the
lowest Fock-Darwin energies and every element with the exact oracle for those
quantum numbers.  Non-trivial: the field is not zero.
"""
ASSUMPTIONS = ["element tolerance 1e-8 relative to the largest element"]
CHUNK = 2
S8 = 1 / math.sqrt(2)
W0 = [1, 0.5, 2.0]
# crossings: wc/w0 = 1/sqrt(2) (ratio 2), 2/sqrt(3) (ratio 3)
WC = [0, 0.3, 1, 2.5, 8.0, S8, 2 / math.sqrt(3), 1e-9, 40.0]
MASS = [1, 0.5, 3.0]


def bounds(tier):
    return dict(sizes="1..6 on the lattice, 7..%d" % (8 if tier == "quick"
                                                     else 12),
                omega_0=W0 + [0.05], omega_c=["+-%g x omega_0" % w for w in WC],
                strong_field_sizes=[9, 10, 12] if tier == "quick" else
                "9..16", mass=MASS, repeats=[0, 1, 2])


def setup(tier):
    TwoDimHarmonicOscB(1, 1, 2)
    TwoDimensionalHarmonicOscillator(1, 1, 2)


def cases(tier):
    for l in range(1, 7):
        for w0 in W0 if l != 5 else [1]:
            for wc in WC:
                for sg in (1, -1) if wc else (1,):
                    for m in MASS if l < 5 and w0 == 1 else [1]:
                        yield dict(l=l, w0=w0, wc=sg * wc * w0, m=m, g=0,
                                   again=(l % 3))
    for l in (1, 2, 3, 6):
        for wc in (0.0, 2, -3, 0.7):
            yield dict(l=l, w0=0.05, wc=wc, m=1, g=1, again=0)
            yield dict(l=l, w0=1.3, wc=wc, m=2, g=2, again=1, shim=1)
            yield dict(l=l, w0=1.3, wc=wc, m=2, g=1, again=0, gos=1)
    # strong field: only n = 0, angular momenta up to l - 1
    for l in (9, 10, 12) if tier == "quick" else range(9, 17):
        for wc in (20.0, -60.0):
            yield dict(l=l, w0=1, wc=wc, m=1, g=0, again=0)
    for l in range(7, 9 if tier == "quick" else 13):
        for wc in (0, 1.0, -1.0, 3.0):
            yield dict(l=l, w0=1, wc=wc, m=1, g=0, again=0)


def lowest(l, w, wc):
    e = [w * (2 * n + abs(m) + 1) - wc * m / 2
         for n in range(l + 3) for m in range(-3 * l - 20, 3 * l + 21)]
    return np.sort(e)[:l]


def run_case(case):
    st = Stats()
    l, w0, wc, m = case["l"], case["w0"], case["wc"], case["m"]
    w = math.sqrt(w0 ** 2 + wc ** 2 / 4)
    rad = 3.0 / math.sqrt(m * w)
    kw = dict(np=R.SHIM) if case.get("shim") else {}
    st.nontrivial = wc != 0
    g = 4 * l + 14 + case["g"]  # angular points tell all m apart
    bs = TwoDimHarmonicOscB(l, rad, g, omega=w0, mass=m, omega_c=wc,
                            **kw)
    for i in range(case["again"] + 1):
        if i:
            bs.setup_basis()
        st.step()
        nm = verify(bs, case, l, w, wc, m)
        st.state(R.digest(l, w0, wc, m, i))
    if wc == 0:
        ho = TwoDimensionalHarmonicOscillator(l, rad, g, omega=w0,
                                              mass=m)
        near(bs.h, ho.h, "zero field: h", case, 1e-10)
        ho_nm = nm_list(l)
        if sum(2 * n + abs(k) for n, k in nm) != sum(
                2 * n + abs(k) for n, k in ho_nm):
            raise Violation(f"{case}: zero field: other shells, {nm}")
        if l in (1, 3, 6, 10):  # complete shells: the very same orbitals
            perm = [ho_nm.index(x) for x in nm]
            for q in ("u", "dipole_moment", "spf"):
                a = np.asarray(getattr(ho, q))
                ax = {"u": 4, "dipole_moment": 2, "spf": 1}[q]
                if ax == 4:
                    a = a[np.ix_(perm, perm, perm, perm)]
                elif ax == 2:
                    a = a[:, perm][:, :, perm]
                else:
                    a = a[perm]
                near(getattr(bs, q), a, f"zero field: {q}", case, 1e-9)
    if case.get("gos") and l > 1:
        s = GeneralOrbitalSystem(2, bs, anti_symmetrize=False)
        st.step()
        near(s.h, np.kron(np.diag([w * (2 * n + abs(k) + 1) - wc * k / 2
                                   for n, k in nm]), np.eye(2)), "GOS h", case)
        near(s.spf[::2], s.spf[1::2], "GOS spf", case)
    return st


def verify(bs, case, l, w, wc, m):
    r, t = np.asarray(bs.R), np.asarray(bs.T)
    f = np.asarray(bs.spf)
    if f.shape != (l,) + r.shape:
        raise Violation(f"{case}: spf has shape {f.shape}")
    cand = [(n, k) for n in range(l + 1) for k in range(-2 * l - 6, 2 * l + 7)]
    F = np.array([function(n, k, w, m, r, t).ravel() for n, k in cand])
    # quantum numbers from the functions
    nm = []
    amp = np.abs(F).max(axis=1) + 1e-12
    for p in range(l):
        d = np.abs(F - f[p].ravel()).max(axis=1) / amp
        i = int(np.argmin(d))
        if d[i] > 1e-8:
            raise Violation(
                f"{case}: function {p} is no Fock-Darwin function of the "
                f"effective frequency (closest {cand[i]}, deviation {d[i]})")
        if np.sum(d < 1e-6) > 1:
            raise RuntimeError(f"grid too coarse for {case}: "
                               f"{[cand[j] for j in np.where(d < 1e-6)[0]]}")
        nm.append(cand[i])
    if len(set(nm)) != l:
        raise Violation(f"{case}: states not distinct: {nm}")
    e = np.array([w * (2 * n + abs(k) + 1) - wc * k / 2 for n, k in nm])
    near(bs.h, np.diag(e), f"h for {nm}", case, 1e-10)
    if np.any(np.diff(e) < -1e-9 * w):
        raise Violation(f"{case}: energies not ordered: {e}")
    low = lowest(l, w, wc)
    near(e, low, f"energies of {nm} against the lowest", case, 1e-9)
    near(bs.s, np.eye(l), "s", case, 1e-12)
    near(bs.u, math.sqrt(m * w) * table(nm), f"u for {nm}", case, 1e-8)
    near(bs.dipole_moment, dip(nm, w, m), f"dipole for {nm}", case, 1e-8)
    if bs.l != l:
        raise Violation(f"{case}: l = {bs.l}")
    return nm
