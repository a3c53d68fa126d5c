"""C14: 2D dot functions, one-body and dipole elements are consistent."""
import itertools
import math
from fractions import Fraction as Fr
from functools import lru_cache

import numpy as np

from mc.core import Infeasible, Known, Stats, Violation
from mc import ref as R
from mc.oracle2d import lag, nm_list, pm
import quantum_systems
from quantum_systems import (
    TwoDimensionalDoubleWell, TwoDimensionalHarmonicOscillator)

RULE = """
A case is one point of the lattice set class x size x frequency x mass x
(barrier, axis) x grid x array module, optionally followed by a repeated
set-up with other parameters.  All elements and all function values of the set
are compared with closed formulas (Laguerre series and half-integer Gamma
values in rational arithmetic).  Non-trivial: always.
"""
ASSUMPTIONS = ["element tolerance 1e-9 relative to the largest element"]
CHUNK = 2
OM = [0.25, 1, 2.5, 7.0]
MASS = [0.5, 1, 3]
BAR = [0, 1, 0.5, -2, 6.0]


def gam2(k):
    """Gamma(k / 2) as (rational, power of sqrt(pi))."""
    if k % 2 == 0:
        return Fr(math.factorial(k // 2 - 1)), 0
    g, j = Fr(1), 1
    while j < k:
        g *= Fr(j, 2)
        j += 2
    return g, 1


@lru_cache(None)
def radial(np_, mp, nq, mq, order):
    """sqrt-normalised int t^(1+order) R_p R_q dt, mw = 1, times 2 pi / pi."""
    k = abs(mp) + abs(mq) + 1 + order
    tot = Fr(0)
    for i, c in enumerate(pm(lag(np_, abs(mp)), lag(nq, abs(mq)))):
        g, half = gam2(k + 2 * i + 1)
        tot += c * g / 2
    half = (k + 1) % 2
    n2 = Fr(math.factorial(np_) * math.factorial(nq),
            math.factorial(np_ + abs(mp)) * math.factorial(nq + abs(mq)))
    return float(tot) * math.sqrt(n2) * (math.sqrt(math.pi) if half else 1.0)


def h_dw(nm, om, m, b, axis):
    l = len(nm)
    a = math.sqrt(m * om)
    h = np.zeros((l, l))
    for p in range(l):
        for q in range(l):
            if p == q:
                h[p, q] += om * (2 * nm[p][0] + abs(nm[p][1]) + 1) \
                    + m * om ** 2 * b ** 2 / 8
            k = nm[q][1] - nm[p][1]
            if k % 2:
                continue
            ang = 4 / (1 - k * k)
            if axis == 0:
                ang *= (-1) ** (k // 2)
            h[p, q] -= m * om ** 2 / 2 * b * ang / math.pi / a * radial(
                *nm[p], *nm[q], 1)
    return h


def dip(nm, om, m):
    l = len(nm)
    a = math.sqrt(m * om)
    d = np.zeros((2, l, l), complex)
    for p in range(l):
        for q in range(l):
            k = nm[q][1] - nm[p][1]
            if abs(k) == 1:
                r = radial(*nm[p], *nm[q], 1) / a
                d[0, p, q] = r
                d[1, p, q] = 1j * k * r
    return d


def function(n, m, om, mass, r, t):
    a2 = mass * om
    x = a2 * r ** 2
    lg = np.zeros_like(x)
    for i, c in reversed(list(enumerate(lag(n, abs(m))))):
        lg = lg * x + float(c)
    nrm = math.sqrt(a2 * float(Fr(math.factorial(n),
                                  math.factorial(n + abs(m)))) / math.pi)
    return nrm * x ** (abs(m) / 2) * lg * np.exp(-x / 2) * (
        np.cos(m * t) + 1j * np.sin(m * t))


def bounds(tier):
    return dict(ho_sizes=lmax(tier)[0], dw_sizes=lmax(tier)[1], omega=OM,
                ho_high_shells="l = 21, 28 (36)",
                dw_high_shells="l = 10, 15, 21 (28)",
                mass=MASS, barrier=BAR, axis=[0, 1], grid_points="1..10, 33",
                radius=[0.5, 4, 10])


def lmax(tier):
    return (15, 8) if tier == "quick" else (24, 13)


def setup(tier):
    TwoDimensionalHarmonicOscillator(1, 1, 2)


def cases(tier):
    lh, ld = lmax(tier)
    yield dict(cls="smooth", args=[4, 4, 5])
    for g in list(range(1, 11)) + [33]:
        for rad in (0.5, 4, 10):
            for om, m in ((1, 1), (0.5, 2)):
                yield dict(cls="ho", l=6, om=om, m=m, g=g, rad=rad)
    yield dict(cls="ho", l=10, om=1, m=1, g=241, rad=9, integ=1)
    yield dict(cls="ho", l=6, om=2, m=3, g=241, rad=4, integ=1)
    for l in range(1, lh + 1):
        for om in OM if l <= 10 else [1, 2.5]:
            for m in MASS if l <= 10 else [1, 0.5]:
                yield dict(cls="ho", l=l, om=om, m=m, g=5, rad=4)
    for l in range(1, ld + 1):
        for om in OM if l <= 6 else [0.25, 2.5]:
            for m in MASS if l <= 6 else [1, 3]:
                for b in BAR if l in (3, 6) else [1, -2]:
                    for ax in (0, 1):
                        yield dict(cls="dw", l=l, om=om, m=m, b=b, axis=ax,
                                   g=3, rad=4)
    # high shells: |m| up to 4, 5 and 6 (7), all pairs
    for l in (21, 28) if tier == "quick" else (21, 28, 36):
        for om, m in ((1, 1), (0.25, 3)):
            yield dict(cls="ho", l=l, om=om, m=m, g=5, rad=4)
    for l in (10, 15, 21) if tier == "quick" else (10, 15, 21, 28):
        for om, m, b in ((1, 1, 2), (0.25, 3, -2)):
            for ax in (0, 1):
                yield dict(cls="dw", l=l, om=om, m=m, b=b, axis=ax, g=3,
                           rad=4)
    for om, m in ((1e-3, 1), (100.0, 1), (1, 1836), ("np2", 1), (1, "np2")):
        for l in (3, 6):
            yield dict(cls="ho", l=l, om=om, m=m, g=4, rad=3)
            yield dict(cls="dw", l=l, om=om, m=m, b=0.7, axis=1, g=4, rad=3)
    for cls in ("ho", "dw"):
        for l in (1, 2, 3, 6):
            for shim in (0, 1):
                yield dict(cls=cls, l=l, om=1.5, m=0.5, b=2, axis=1, g=4,
                           rad=3, shim=shim, defaults=1 - shim)
                yield dict(cls=cls, l=l, om=1.5, m=0.5, b=2, axis=1, g=4,
                           rad=3, shim=shim, verbose=1)
            for om2, m2, b2, a2 in ((1.5, 0.5, 2, 1), (0.3, 0.5, 2, 1),
                                    (1.5, 2, 2, 1), (1.5, 0.5, 0.1, 1),
                                    (1.5, 0.5, 2, 0), (4.0, 3, -1, 0)):
                yield dict(cls=cls, l=l, om=1.5, m=0.5, b=2, axis=1, g=4,
                           rad=3, again=[om2, m2, b2, a2])


def val(x):
    return np.float64(2) if x == "np2" else x


def run_case(case):
    st = Stats()
    if case["cls"] == "smooth":
        st.step()
        try:
            bs = quantum_systems.quantum_dots.two_dim.two_dim_ho \
                .TwoDimSmoothDoubleWell(*case["args"])
        except Exception as e:  # noqa
            if isinstance(e, NameError):
                raise Known("smooth-double-well-constructor",
                            f"TwoDimSmoothDoubleWell{tuple(case['args'])}: "
                            f"{e!r}")
            raise
        return st
    om, m, l = val(case["om"]), val(case["m"]), case["l"]
    kw = dict(omega=om, mass=m)
    if case.get("shim"):
        kw["np"] = R.SHIM
    if case.get("verbose"):
        kw["verbose"] = True
    b, axis = case.get("b"), case.get("axis")
    if case["cls"] == "ho":
        cls = TwoDimensionalHarmonicOscillator
    else:
        cls = TwoDimensionalDoubleWell
        kw.update(barrier_strength=b, axis=axis)
    if case.get("defaults"):
        # the documented defaults: everything one, axis x
        kw, om, m, b, axis = {}, 1, 1, 1, 0
    bs = cls(l, case["rad"], case["g"], **kw)
    st.step()
    verify(bs, case, st, l, om, m, b, axis)
    if "again" in case:
        om, m, b, axis = case["again"]
        bs.omega, bs.mass = om, m
        if case["cls"] == "dw":
            bs.barrier_strength, bs.axis = b, axis
        bs.setup_basis()
        verify(bs, case, st, l, om, m, b, axis)
    return st


def near(got, want, what, case, tol=1e-9):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{case}: {what} has shape {got.shape}, expected "
                        f"{want.shape}")
    if got.dtype.kind not in "fc":
        got = got.astype(complex)
    sc = max(np.abs(want).max(initial=0), 1e-300)
    d = np.abs(got - want)
    if not np.all(d <= tol * sc):
        i = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))),
                             d.shape)
        raise Violation(f"{case}: {what}{tuple(map(int, i))} is {got[i]}, "
                        f"exact {want[i]}")


def verify(bs, case, st, l, om, m, b, axis):
    nm = nm_list(l)
    om, m = float(om), float(m)
    g = case["g"]
    rad = np.array([case["rad"] * i / (g - 1) if g > 1 else 0.0
                    for i in range(g)])
    th = np.array([2 * math.pi * i / (g - 1) if g > 1 else 0.0
                   for i in range(g)])
    near(bs.R, np.tile(rad, (g, 1)), "R", case, 1e-12)
    near(bs.T, np.tile(th[:, None], (1, g)), "T", case, 1e-12)
    r, t = np.asarray(bs.R), np.asarray(bs.T)
    want = np.array([function(n, mm, om, m, r, t) for n, mm in nm])
    near(bs.spf, want, "spf", case, 1e-9)
    if bs.l != l:
        raise Violation(f"{case}: l = {bs.l}")
    near(bs.s, np.eye(l), "s", case, 1e-12)
    if case["cls"] == "ho":
        near(bs.h, np.diag([om * (2 * n + abs(mm) + 1) for n, mm in nm]),
             "h", case, 1e-12)
    else:
        near(bs.h, h_dw(nm, om, m, b, axis), "h", case)
    near(bs.dipole_moment, dip(nm, om, m), "dipole_moment", case)
    st.state(R.digest(case["cls"], l, om, m, b, axis, g))
    if case.get("integ"):
        f = np.asarray(bs.spf)
        x, y = r * np.cos(t), r * np.sin(t)
        dr, dt = rad[1], th[1]
        w = r * dr * dt
        w[0] /= 2
        w[-1] /= 2  # theta end points
        ov = np.einsum("pij,qij,ij->pq", f.conj(), f, w)
        near(ov, np.eye(l), "overlap integrated on the grid", case, 2e-3)
        for k, c in enumerate((x, y)):
            d = np.einsum("pij,qij,ij->pq", f.conj(), f, w * c)
            near(np.asarray(bs.dipole_moment)[k], d,
                 f"dipole {k} against the grid integral", case, 5e-3)
