"""C11: 2D oscillator orbitals are enumerated shell by shell without gaps."""
import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems.quantum_dots.two_dim.two_dim_helper import (
    get_index_p, get_indices_nm, get_one_body_elements, get_shell_energy)

RULE = """
A case is a block of consecutive orbital numbers, a block of shells (all shell
edges and centres), a block of the (n, m) box, or a basis size.  Every orbital
number / pair in the block is executed.  Oracle: the integer generator 'shell
0, 1, 2, ...; m = -k, -k+2, ..., k'.  Non-trivial: always.
"""
ASSUMPTIONS = ["orbital numbers beyond the bound"]

# 32-bit products, rounded square roots, numbers that are no floats
HUGE = [30_000, 46_340, 46_341, 60_000, 65_535, 65_536, 47_453_133, 47_453_134,
        2 ** 26 - 1, 2 ** 26, 80_000_001, 94_906_265, 94_906_266, 94_906_267,
        2 ** 27 - 1, 2 ** 27, 189_812_531, 189_812_532]


def bounds(tier):
    q = tier == "quick"
    return dict(all_p_below=2_000_000 if q else 20_000_000,
                shell_edges_below=10_000 if q else 20_000,
                nm_box="n < %d, |m| <= %d" % ((60, 120) if q else (200, 400)),
                energies_up_to_l=120 if q else 400,
                huge_shells=HUGE if q else HUGE + [
                    92_681, 92_682, 200_000, 2 ** 27 + 1, 2 ** 28 - 1,
                    2 ** 28, 2 ** 29 + 2, 10 ** 9 + 7])


def cases(tier):
    b = bounds(tier)
    for l in range(0, b["energies_up_to_l"] + 1,
                   1 if tier == "quick" else 3):
        yield dict(energies=l)
    k = 0
    while k * (k + 1) // 2 < b["all_p_below"]:
        yield dict(shells=[k, k + 20])
        k += 20
    n, m = (60, 120) if tier == "quick" else (200, 400)
    for i in range(n):
        yield dict(n=i, m=m)
    for k in range(0, b["shell_edges_below"], 100):
        yield dict(edges=[k, k + 100])
    for k in b["huge_shells"]:
        yield dict(edges=[k, k + 1])


def setup(tier):
    get_index_p(1, -2), get_indices_nm(5), get_one_body_elements(3)
    get_shell_energy(1, -1)


def one(p, n, m):
    g = get_indices_nm(p)
    if (int(g[0]), int(g[1])) != (n, m) or g[0] != n or g[1] != m:
        raise Violation(f"orbital {p} has quantum numbers {g}, expected "
                        f"{(n, m)}")
    i = get_index_p(n, m)
    if i != p:
        raise Violation(f"(n, m) = {(n, m)} has orbital number {i}, expected "
                        f"{p}")


def run_case(case):
    st = Stats()
    if "shells" in case:
        for k in range(*case["shells"]):
            p = k * (k + 1) // 2
            for m in range(-k, k + 1, 2):
                one(p, (k - abs(m)) // 2, m)
                st.step(2)
                p += 1
            st.state(R.digest("shell", k))
    elif "edges" in case:
        for k in range(*case["edges"]):
            p0 = k * (k + 1) // 2
            for j in sorted({0, 1, 2, k // 2 - 1, k // 2, k // 2 + 1,
                             (k + 1) // 2, k - 2, k - 1, k}):
                if 0 <= j <= k:
                    m = -k + 2 * j
                    one(p0 + j, (k - abs(m)) // 2, m)
                    st.step(2)
            st.state(R.digest("edge", k))
    elif "n" in case:
        n = case["n"]
        for m in range(-case["m"], case["m"] + 1):
            k = 2 * n + abs(m)
            one(k * (k + 1) // 2 + (m + k) // 2, n, m)
            e = get_shell_energy(n, m)
            if e != k + 1:
                raise Violation(f"energy of {(n, m)} is {e}")
            st.step(3)
        st.state(R.digest("n", n))
    else:
        l = case["energies"]
        h = get_one_body_elements(l)
        if h.shape != (l, l):
            raise Violation(f"one-body elements of {l}: shape {h.shape}")
        w = []
        k = 0
        while len(w) < l:
            w += [k + 1] * (k + 1)
            k += 1
        want = np.diag(np.array(w[:l], dtype=float)) if l else np.zeros((0, 0))
        if l and np.max(np.abs(h - want)) > 0:
            raise Violation(f"one-body elements of {l}: "
                            f"{R.describe('h', h, want)}")
        st.step(l)
        st.state(R.digest("e", l))
    return st
