"""C12: 2D Coulomb elements are the true Coulomb integrals."""
import itertools
import os
import subprocess
import sys

import numpy as np

from mc.core import Infeasible, Known, Stats, Violation
from mc import par12, ref as R
from mc.oracle2d import exact, nm_list, table
from quantum_systems import (
    TwoDimensionalDoubleWell, TwoDimensionalHarmonicOscillator,
    TwoDimHarmonicOscB)
from quantum_systems.quantum_dots.two_dim.coulomb_elements import coulomb_ho
from quantum_systems.quantum_dots.two_dim import two_dim_helper as helper
from quantum_systems.quantum_dots.two_dim.two_dim_helper import (
    get_coulomb_elements)

RULE = """
A case is a basis size (all l^4 elements), a slab of a box of quantum numbers
(all quadruples, those violating angular momentum included), a point of the
frequency/mass/field lattice for one of the three sets (all elements), or one
(thread count, chunk size, repetition) of the parallel loop.  Oracle: exact
rational arithmetic.  Non-trivial: always.
"""
ASSUMPTIONS = [
    "agreement is required within the rounding error the published formula "
    "has in double precision: 1e-9 up to shell 5, 1e-6 up to shell 8, relative "
    "to elements of order one",
]
DATA = {}
OM = [0.25, 1, 1.0, 2.5]
MASS = [0.5, 1, 3]


def shell_tol(nm):
    sh = np.array([2 * n + abs(m) for n, m in nm])
    a, b, c, d = np.ix_(sh, sh, sh, sh)
    mx = np.maximum(np.maximum(a, b), np.maximum(c, d))
    return np.where(mx <= 5, 1e-9, np.where(mx <= 8, 1e-6, 2e-5))


BOX = {
    "n0m9": [(0, m) for m in range(-9, 10)],
    "n1m4": [(n, m) for n in (0, 1) for m in range(-4, 5)],
    "n2m2": [(n, m) for n in (0, 1, 2) for m in range(-2, 3)],
    "mix": [(0, 0), (0, 1), (0, -1), (1, 0), (2, 0), (3, 0), (1, 5), (1, -5),
            (0, 7), (0, -7), (2, 3), (2, -3), (3, 1), (3, -1)],
    "mix2": [(0, 0), (4, 0), (3, 2), (3, -2), (1, 1), (1, -1), (0, 8), (0, -8),
             (2, 4), (2, -4)],
}
BOX_T = {
    "n0m12": [(0, m) for m in range(-12, 13)],
    "n1m6": [(n, m) for n in (0, 1) for m in range(-6, 7)],
    "n2m4": [(n, m) for n in (0, 1, 2) for m in range(-4, 5)],
}


def boxes(tier):
    return BOX if tier == "quick" else {**BOX, **BOX_T}


def big(tier):
    return [38] if tier == "quick" else [36, 38, 45]


def high_m(tier):
    return range(3, 81 if tier == "quick" else 161)


def thr(tier):
    return [3, 7] if tier == "quick" else [1, 2, 3, 5, 7, 10, 15]


def bounds(tier):
    return dict(high_m="(0, m), (0, m +- 1), (0, -m), m < %d, with low orbitals"
                % high_m(tier).stop, all_l_up_to=21, large_l=big(tier), boxes=boxes(tier),
                omega=OM, mass=MASS, omega_c=[0, 0.5, -1.3, 3.0],
                schedules="parallel loops, l <= %d: all iterations "
                "independent, or else every execution with one preemption "
                "(l <= 4)" % (7 if tier == "quick" else 12),
                threads="1..8", chunk_sizes=[0, 1, 2, 3, 5, "l"])


def setup(tier):
    out = os.path.join(os.environ["VERIF_SCRATCH"], "c12.npz")
    env = dict(os.environ, NUMBA_NUM_THREADS="8")
    r = subprocess.run(
        [sys.executable, "-B", "-m", "mc.threads12", out,
         ",".join(map(str, big(tier))), ",".join(map(str, thr(tier)))],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if "/repo/" in r.stdout:
            raise Violation("parallel computation failed:\n" + r.stdout)
        raise RuntimeError(r.stdout)
    with np.load(out) as z:
        DATA.update({k: z[k] for k in z.files})
    os.remove(out)
    get_coulomb_elements(1)
    coulomb_ho(0, 0, 0, 0, 0, 0, 0, 0)
    for k, b in boxes(tier).items():
        DATA["box_" + k] = table(b)


def cases(tier):
    for l in range(1, 22):
        yield dict(l=l)
    for k in sorted(DATA):
        if not k.startswith("box") and not k.startswith("big"):
            yield dict(par=k)
    for k, b in boxes(tier).items():
        for p in range(len(b)):
            for q in range(len(b)):
                yield dict(box=k, p=p, q=q)
    for om, mass in itertools.product(OM, MASS):
        for l in ((1, 3, 6) if tier == "quick" else (1, 2, 3, 4, 6, 10)):
            yield dict(cls="tdho", l=l, om=om, mass=mass)
        for l, ax, b in ((3, 0, 2), (3, 1, 0.5)):
            yield dict(cls="tddw", l=l, om=om, mass=mass, ax=ax, b=b)
        for l in ((1, 4) if tier == "quick" else (1, 2, 4, 6)):
            for oc in (0, 0.5, -1.3, 3.0):
                yield dict(cls="tdhob", l=l, om=om, mass=mass, oc=oc)
    for l in big(tier):
        for p in range(l):
            yield dict(big=l, p=p)
    for m in high_m(tier):
        yield dict(high=m)
    yield dict(precision=[6, 0])
    for name in sorted(par12.parallel_functions(helper)):
        for l in range(1, 8 if tier == "quick" else 13):
            yield dict(schedules=name, size=l)


def comp(u, want, tol, where, scale=1.0):
    u = np.asarray(u)
    if u.shape != want.shape:
        raise Violation(f"{where}: shape {u.shape}")
    d = np.abs(u - want)
    bad = ~(d <= tol * scale)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Violation(f"{where}: element {i} is {u[i]!r}, exact integral "
                        f"{want[i]!r}")


def run_case(case):
    st = Stats()
    where = str(case)
    st.state(R.digest(where))
    if "schedules" in case:
        return schedules(case, st, where)
    if "l" in case and "cls" not in case:
        l = case["l"]
        nm = nm_list(l)
        u = get_coulomb_elements(l)
        st.step(l ** 4)
        comp(u, table(nm), shell_tol(nm), where)
        symmetries(u, nm, where)
    elif "par" in case:
        l = int(case["par"].split("_")[0])
        nm = nm_list(l)
        st.step(l ** 4)
        comp(DATA[case["par"]], table(nm), shell_tol(nm),
             f"{where} (l_threads_chunk_repetition)")
    elif "big" in case:
        l, p = case["big"], case["p"]
        nm = nm_list(l)
        if "t%d" % l not in DATA:
            DATA["t%d" % l] = table(nm)
            DATA["tol%d" % l] = shell_tol(nm)
        st.step(l ** 3)
        comp(DATA["big_%d" % l][p], DATA["t%d" % l][p], DATA["tol%d" % l][p],
             where)
        if p == 0:
            symmetries(DATA["big_%d" % l], nm, where, 1e-5)
    elif "box" in case:
        b = BOX.get(case["box"]) or BOX_T[case["box"]]
        p, q = case["p"], case["q"]
        w = DATA["box_" + case["box"]]
        for r in range(len(b)):
            for s in range(len(b)):
                g = coulomb_ho(*b[p], *b[q], *b[r], *b[s])
                st.step()
                sh = max(2 * n + abs(m) for n, m in (b[p], b[q], b[r], b[s]))
                tol = 1e-9 if sh <= 5 else 1e-6 if sh <= 8 else 2e-5
                cons = b[p][1] + b[q][1] == b[r][1] + b[s][1]
                if not abs(g - w[p, q, r, s]) <= tol or (not cons and g != 0):
                    raise Violation(
                        f"coulomb_ho for (n, m) = {b[p]}, {b[q]}, {b[r]}, "
                        f"{b[s]} is {g}, exact {w[p, q, r, s]}")
    elif "high" in case:
        # up to two orbitals of high angular momentum: no cancellation
        m = case["high"]
        top = [(0, m), (0, m - 1), (0, m + 1), (0, -m)]
        for a in itertools.product([(0, 0), (0, 1), (0, -1), (1, 0)] + top,
                                   repeat=4):
            if a[0][1] + a[1][1] != a[2][1] + a[3][1] or sum(
                    x in top for x in a) > 2:
                continue
            g = coulomb_ho(*[x for y in a for x in y])
            st.step()
            if not abs(g - exact(*a)) <= 1e-8:
                raise Violation(f"coulomb_ho for (n, m) = {a} is {g}, exact "
                                f"{exact(*a)}")
    elif "cls" in case:
        l, om, mass = case["l"], case["om"], case["mass"]
        kw = dict(omega=om, mass=mass)
        c = case["cls"]
        w = om
        if c == "tdho":
            bs = TwoDimensionalHarmonicOscillator(l, 2, 4, **kw)
            nm = nm_list(l)
        elif c == "tddw":
            bs = TwoDimensionalDoubleWell(l, 2, 4, barrier_strength=case["b"],
                                          axis=case["ax"], **kw)
            nm = nm_list(l)
        else:
            bs = TwoDimHarmonicOscB(l, 2, 4, omega_c=case["oc"], **kw)
            nm = [tuple(bs.get_indices_nm(p)) for p in range(l)]
            w = np.sqrt(om ** 2 + case["oc"] ** 2 / 4)
        st.step(l ** 4)
        f = np.sqrt(mass * w)
        comp(bs.u, f * table(nm), shell_tol(nm), where, f)
    else:
        n, m = case["precision"]
        a = (n, m)
        g = coulomb_ho(*a, *a, *a, *a)
        e = exact(a, a, a, a)
        st.step()
        if abs(g - e) > 1e-6:
            raise Known("precision-shell-12",
                        f"coulomb_ho of four orbitals (n, m) = {a} is {g}, "
                        f"exact {e}")
    return st


def schedules(case, st, where):
    l = case["size"]
    fn = par12.parallel_functions(helper)[case["schedules"]]
    nm = nm_list(l)
    want, tol = table(nm), shell_tol(nm)
    try:
        run, out = par12.sequential(fn, l)
    except Exception:  # not executable without the compiler
        raise Infeasible
    if out.shape != want.shape or not np.all(np.abs(out - want) <= tol):
        raise Infeasible  # does not compute the elements on its own
    st.step(sum(run.events.values()))
    pairs = par12.conflicts(run.foot)
    st.state(R.digest("schedules", l, len(run.foot), len(pairs)))
    if l > 4:
        if pairs:
            raise Infeasible
        return st
    for what, got in par12.schedules(fn, l, run, pairs):
        st.step()
        comp(got, want, tol, f"{where}: {what}")
    return st


def symmetries(u, nm, where, tol=1e-8):
    m = np.array([x[1] for x in nm])
    bad = (m[:, None, None, None] + m[None, :, None, None]
           != m[None, None, :, None] + m[None, None, None, :])
    if np.any(u[bad] != 0):
        raise Violation(f"{where}: angular momentum not conserved")
    if np.max(np.abs(u - u.transpose(1, 0, 3, 2))) > tol:
        raise Violation(f"{where}: particle exchange symmetry")
    if np.max(np.abs(u - u.conj().transpose(2, 3, 0, 1))) > tol:
        raise Violation(f"{where}: not Hermitian")
