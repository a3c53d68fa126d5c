"""C18: each 1D potential has its documented form and exact derivative."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np

from mc.core import Stats, Violation
from mc import ref as R
from quantum_systems import ODQD, ODSincDVR
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as P

RULE = """
A case is (potential class, parameter tuple, container of the positions).  The
value and the derivative are evaluated at every position of a lattice that
includes zero, the wells, the walls and far-out points, and compared with the
defining formula evaluated in extended precision; calls are repeated and
interleaved.  Non-trivial: always.
"""
ASSUMPTIONS = ["integer positions whose sixth power fits in 64 bits",
               "derivative of the double well not judged at its kink x = 0"]
CHUNK = 8
LD = np.longdouble
XS = [0, 1, -1, 2, -3, 0.5, -0.5, 0.125, 1.75, -2.25, 4, -4.0, 7.5, -10, 25.0,
      1e-3, -1e-6, 99.5, -101.0, 999.0, -1001.5, 12345.0, -3e5, 1e6, 4e7]
CONT = ["float", "int", "npfloat", "array", "array2d", "intarray", "view",
        "empty", "f32", "one"]

# class -> (attribute on the sets, lattice of constructor arguments, defaults)
LAT = {
    "HOPotential": [[1, 0.25, 2.5, 0, -1, 3]],
    "DWPotential": [[1, 0.25, 2.5, -1], [0, 1, 4, 2.5, -3]],
    "DWPotentialSmooth": [[4, 1, 2.5, -3, 10, 0.5]],
    "SymmetricDWPotential": [[0.5, 0, 2, -1], [1, 0, 0.3, -2],
                             [-7, 0, 1.5, 2]],
    "AsymmetricDWPotential": [[1, 0, 2.5, -1], [1, 0, 0.3, -2],
                              [-2.5, 0, 1.5, 2]],
    "GaussianPotential": [[1, 2.5, -1, 0], [0, 1.5, -2], [1, 0.3, 2.5, -1]],
    "GaussianPotentialHardWall": [[1, 2.5, -1], [0, 1.5, -2], [1, 0.3, 2.5],
                                  [4, 1, 2.25, 100]],
    "AtomicPotential": [[2, 1, -1, 0, 3.5], [0.54878464, 1, 0.01, 2]],
}
DEFAULTS = {"DWPotentialSmooth": [4], "SymmetricDWPotential": [0.5, 1, -7],
            "AsymmetricDWPotential": [1, 1, -2.5],
            "AtomicPotential": [2, 0.54878464]}


def value(name, p, x):
    """(value, size of the terms) in extended precision."""
    p = [LD(float(v)) for v in p]
    x = LD(x)
    if name == "HOPotential":
        t = [p[0] ** 2 * x ** 2 / 2]
    elif name == "DWPotential":
        w, l = p
        t = [w ** 2 * x ** 2 / 2, w ** 2 * l ** 2 / 8,
             -w ** 2 * l * abs(x) / 2]
    elif name == "DWPotentialSmooth":
        a, = p
        t = [x ** 4 / (2 * a * a), -x ** 2 / 4, a ** 2 / 32]
    elif name == "SymmetricDWPotential":
        t = [p[0] * x ** 6, p[1] * x ** 4, p[2] * x ** 2]
    elif name == "AsymmetricDWPotential":
        t = [p[0] * x ** 4, p[1] * x ** 3, p[2] * x ** 2]
    elif name == "GaussianPotential":
        t = [-p[0] * np.exp(-(x - p[1]) ** 2 / (2 * p[2] ** 2))]
    elif name == "GaussianPotentialHardWall":
        t = [-p[0] * np.exp(-(x - p[1]) ** 2 / (2 * p[2] ** 2)),
             LD(1e5) if abs(x) > p[3] else LD(0)]
    else:
        t = [-p[0] / np.sqrt(x * x + p[1])]
    return float(sum(t)), float(sum(map(abs, t)))


def slope(name, p, x):
    p = [LD(float(v)) for v in p]
    x = LD(x)
    if name == "HOPotential":
        t = [p[0] ** 2 * x]
    elif name == "DWPotential":
        w, l = p
        t = [w ** 2 * x, -w ** 2 * l / 2 * np.sign(x)]
    elif name == "DWPotentialSmooth":
        a, = p
        # the terms of the factored form
        return (float(2 * x ** 3 / a ** 2 - x / 2),
                float((abs(x) + abs(a) / 2) ** 3 / a ** 2))
    elif name == "SymmetricDWPotential":
        t = [6 * p[0] * x ** 5, 4 * p[1] * x ** 3, 2 * p[2] * x]
    elif name == "AsymmetricDWPotential":
        t = [4 * p[0] * x ** 3, 3 * p[1] * x ** 2, 2 * p[2] * x]
    elif name == "GaussianPotential":
        g = p[0] * np.exp(-(x - p[1]) ** 2 / (2 * p[2] ** 2))
        t = [(x - p[1]) / p[2] ** 2 * g]
    else:
        t = [p[0] * x / (x * x + p[1]) ** LD(1.5)]
    return float(sum(t)), float(sum(map(abs, t)))


def bounds(tier):
    return dict(parameters=LAT, positions=XS, containers=CONT)


def cases(tier):
    for name, lat in LAT.items():
        for p in itertools.product(*lat):
            for c in CONT:
                yield dict(pot=name, p=list(p), cont=c)
        for c in CONT:
            if name in DEFAULTS:
                yield dict(pot=name, p=DEFAULTS[name], cont=c, defaults=1)
                yield dict(pot=name, p=DEFAULTS[name], cont=c, kw=1)
            if name != "GaussianPotentialHardWall":
                for s in ("qd", "sinc"):
                    yield dict(pot=name, p=[q[-1] for q in lat], cont=c,
                               via=s)


KW = {"DWPotentialSmooth": "a", "SymmetricDWPotential": "abc",
      "AsymmetricDWPotential": "abc", "AtomicPotential": ["Za", "c"]}


def run_case(case):
    st = Stats()
    name, p = case["pot"], case["p"]
    src = {"qd": ODQD, "sinc": ODSincDVR}.get(case.get("via"), P)
    cls = getattr(src, name)
    args = list(p)
    if name == "GaussianPotential":
        args.append(np)
    if case.get("defaults"):
        pot = cls()
    elif case.get("kw"):
        pot = cls(**dict(zip(KW[name], args)))
    else:
        pot = cls(*args)
    xs = XS
    fs = [("value", pot, value)]
    if name != "GaussianPotentialHardWall":
        fs.append(("derivative", pot.derivative, slope))
    c = case["cont"]
    scalar = c in ("float", "int", "npfloat")
    if name == "GaussianPotentialHardWall" and (scalar or c == "array2d"):
        return st
    rel, tiny = 1e-12, 1e-300
    if c == "f32":
        xs = np.array([x for x in XS if abs(x) <= 1e6],
                      dtype=np.float32)
        xs = [float(x) for x in xs]
        rel, tiny = 1e-4, 1e-30  # single precision
    elif c in ("int", "intarray"):
        xs = [int(x) for x in XS if x == int(x) and abs(x) < 1024]  # x^6 fits
    for rnd in (0, 1):
        for what, f, oracle in fs:
            if scalar:
                conv = {"float": float, "int": int,
                        "npfloat": np.float64}[c]
                got = [f(conv(x)) for x in xs]
                if any(np.ndim(g) for g in got):
                    raise Violation(f"{case}: {what} of a number is an array")
                pts = [float(conv(x)) for x in xs]
            elif c == "empty":
                a = np.zeros(0)
                g = np.asarray(f(a))
                if g.shape != (0,):
                    raise Violation(f"{case}: {what} of no points {g.shape}")
                got, pts = [], []
            elif c == "one":
                got, pts = [], [float(x) for x in xs]
                for x in pts:
                    g = np.asarray(f(np.array([x])))
                    if g.shape != (1,):
                        raise Violation(f"{case}: {what} has shape {g.shape}")
                    got.append(g[0])
            else:
                a = np.array(xs, dtype=int if c == "intarray" else
                             np.float32 if c == "f32" else float)
                if c == "array2d":
                    a = np.array([a, a[::-1]])
                if c == "view":
                    a = np.repeat(a, 2)[::2]
                keep = a.copy()
                a.flags.writeable = False
                g = np.asarray(f(a))
                if g.shape != a.shape:
                    raise Violation(f"{case}: {what} has shape {g.shape}")
                if not np.array_equal(a, keep):
                    raise Violation(f"{case}: positions changed by {what}")
                got, pts = list(g.ravel()), list(map(float, a.ravel()))
            for x, g in zip(pts, got):
                if what == "derivative" and name == "DWPotential" and x == 0:
                    continue
                w, size = oracle(name, p, x)
                st.step()
                # rounding of the factored forms is relative to the terms
                if not abs(float(g) - w) <= rel * size + tiny:
                    raise Violation(f"{case}: {what} at x={x} is {g!r}, "
                                    f"expected {w!r}")
    st.state(R.digest(repr(case)))
    return st
