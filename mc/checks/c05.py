"""C05: reference energy and Fock matrix are those of the determinant."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R, fock
from quantum_systems import (BasisSet, GeneralOrbitalSystem,
                             SpatialOrbitalSystem)

RULE = """
A case is (kind of system, size, occupation, input class, output buffer,
prior basis change).  All matrix-unit inputs are run in the 'unit' cases.
Oracle: expectation values in the explicitly constructed determinant in the
full Fock space (up to 6 modes, physical inputs), and the documented index
formulas written as loops (all sizes, all inputs).  Non-trivial: always.
"""
ASSUMPTIONS = ["linearity in the elements extends matrix units to all values"]

BUF = ["none", "zeros", "garbage", "nan", "inf", "fortran", "strided",
       "complex_garbage"]

# energies and Fock matrices asked for in the middle of a history: evaluate
# (e: energy, f, g: Fock matrix
# of the system's own and of other elements), set / overwrite in place the elements of the
# basis (s_, w_) or the arrays handed to construct_fock_matrix (p_), change
# basis
HIST = ["e", "f", "g", "sh", "su", "wh", "wu", "ph", "pu", "cb:U", "cb:X"]


LARGE = {"quick": [17, 18, 20, 25, 33], "thorough": list(range(21, 41)) + [66]}


def bounds(tier):
    q = tier == "quick"
    return dict(units_l=3 if q else 4, fock_modes=6,
                sweep_l=list(range(1, 15 if q else 21)), buffers=BUF,
                large_l=LARGE[tier],
                structure=["hermitian", "real eightfold", "diagonal, local",
                           "no interaction"],
                history_depth=3 if q else 4, history_ops=HIST,
                dtypes=["real", "complex", "real h/complex u",
                        "complex h/real u", "float32", "int"])


def cases(tier):
    b = bounds(tier)
    for kind in ("gos", "spatial"):
        for l in range(1, b["units_l"] + 1):
            for n in range(l + 1):
                yield dict(kind=kind, mode="units", l=l, n=n)
        for l in ((1, 2, 3, 4, 5, 6) if kind == "gos" else (1, 2, 3)):
            for n in range(l + 1):
                for hist in ([], ["cb:U"], ["cb:X"]):
                    yield dict(kind=kind, mode="fock", l=l, n=n, hist=hist)
        for l in b["large_l"]:
            for n in range(l + 1) if l < 60 else (1, 31, 32, 33, 63, 64, 65, 66):
                yield dict(kind=kind, mode="formula", l=l, n=n, dt="rr",
                           few=1)
        for l in b["sweep_l"]:
            for n in range(l + 1):
                for dt in ("cc", "rr", "rc", "cr", "ff", "ii", "hh", "88",
                           "dd", "00"):
                    yield dict(kind=kind, mode="formula", l=l, n=n, dt=dt)
    for kind in ("gos", "spatial"):
        for k in range(1, b["history_depth"] + 1):
            for h in itertools.product(HIST, repeat=k):
                if set(h[:-1]) & set("efg"):
                    for last in "fg":
                        yield dict(kind=kind, mode="history", hist=list(h),
                                   last=last)
    for l in (1, 2, 3, 4):
        for n in range(0, l + 1):
            for hist in ([], ["cb:U"], ["cb:N"], ["cb:X"], ["cb:S"], ["cb:G"],
                         ["cb:U", "cb:X"]):
                for sb in R.SPIN_BASES:
                    yield dict(kind="both", l=l, n=n, hist=hist, sb=sb)


def sym(u):
    return u + u.transpose(1, 0, 3, 2)


def asym(u):
    return u - u.transpose(0, 1, 3, 2)


def system(kind, n, h, u, s=None):
    l = len(h)
    bs = BasisSet(l, 1, includes_spin=kind == "gos",
                  anti_symmetrized_u=kind == "gos")
    bs.h, bs.u, bs.s = h, u, np.eye(l)
    return (GeneralOrbitalSystem(n, bs) if kind == "gos"
            else SpatialOrbitalSystem(2 * n, bs))


def formula(kind, n, h, u):
    l = len(h)
    f = np.zeros((l, l), dtype=complex) + h
    e = 0
    for i in range(n):
        e += h[i, i] * (1 if kind == "gos" else 2)
        for j in range(n):
            e += (0.5 * u[i, j, i, j] if kind == "gos" else
                  2 * u[i, j, i, j] - u[i, j, j, i])
        f = f + (u[:, i, :, i] if kind == "gos" else
                 2 * u[:, i, :, i] - u[:, i, i, :])
    return e, f


def mean_field(h, u_plain, occ):
    """Energy and Fock matrix in the determinant `occ` by brute force:
    H = sum h c+c + 1/2 sum u c+c+cc."""
    n = len(h)
    H = fock.one_body(h) + 0.5 * fock.two_body(u_plain)
    v = fock.determinant(n, occ)
    e = v @ H @ v
    c = fock.annihilators(n)
    f = np.zeros((n, n), dtype=complex)
    for p in range(n):
        X = c[p] @ H - H @ c[p]
        for q in range(n):
            f[p, q] = v @ (X @ (c[q].T @ v)) + v @ (c[q].T @ (X @ v))
    return e, f


def buffers(l, cplx, which):
    dt = complex if cplx or which == "complex_garbage" else float
    if which == "none":
        return None
    if which == "zeros":
        return np.zeros((l, l), dtype=dt)
    if which == "garbage":
        return (R.generic((l, l), False, "buf") * 1e3).astype(dt)
    if which == "complex_garbage":
        return R.generic((l, l), True, "buf") * 1e3
    if which == "nan":
        return np.full((l, l), np.nan, dtype=dt)
    if which == "inf":
        return np.full((l, l), -np.inf, dtype=dt)
    if which == "fortran":
        return np.asfortranarray(R.generic((l, l), False, "buf").astype(dt))
    if which == "strided":
        return (R.generic((2 * l, 3 * l), False, "buf").astype(dt))[::2, ::3]


def check_fock(st, sy, h, u, want, where, tol=1e-12, bufs=BUF):
    cplx = np.iscomplexobj(h) or np.iscomplexobj(u)
    scale = max(np.max(np.abs(h)), np.max(np.abs(u)) * (len(h) + 1), 1e-300)
    for which in bufs:
        f = buffers(len(h), cplx, which)
        hh, uu = R.frozen(h), R.frozen(u)
        got = (sy.construct_fock_matrix(hh, uu) if f is None else
               sy.construct_fock_matrix(hh, uu, f))
        st.step()
        if f is not None and got is not f:
            if not np.shares_memory(got, f):
                raise Violation(f"{where}: buffer {which} was not used")
        for g in (got,) if f is None else (got, f):
            if not R.close(g, want, tol, scale):
                raise Violation(f"{where}, buffer {which}: "
                                f"{R.describe('Fock matrix', g, want)}")


def check_e(st, sy, want, where, scale, tol=1e-12):
    st.step()
    e = sy.compute_reference_energy()
    if np.shape(e) != () or not abs(e - want) <= tol * scale:
        raise Violation(f"{where}: reference energy {e}, expected {want}")


def run_case(case):
    st = Stats()
    where = str(case)
    st.state(R.digest(where))
    if case["kind"] == "both":
        return both(case, st, where)
    if case["mode"] == "history":
        return history(case, st, where)
    kind, l, n = case["kind"], case["l"], case["n"]
    if case["mode"] == "units":
        z4 = np.zeros((l,) * 4)
        for i in range(l * l):
            h = np.eye(1, l * l, i).reshape(l, l)
            sy = system(kind, n, h, z4)
            e, f = formula(kind, n, h, z4)
            check_e(st, sy, e, where, 1)
            check_fock(st, sy, h, z4, f, where, bufs=BUF[:4])
        for i in range(l ** 4):
            u = np.eye(1, l ** 4, i).reshape((l,) * 4)
            if kind == "gos":
                u = asym(u)
            h = np.zeros((l, l))
            sy = system(kind, n, h, u)
            e, f = formula(kind, n, h, u)
            check_e(st, sy, e, where + f" unit {i}", 1)
            check_fock(st, sy, h, u, f, where + f" unit {i}",
                       bufs=("none", "nan"))
        return st
    if case["mode"] == "formula":
        d1, d2 = case["dt"]
        h = R.generic((l, l), d1 == "c", "h5")
        u = R.generic((l,) * 4, d2 == "c", "u5")
        if d1 in "h8d0":
            fx = R.Fx(l=l, cplx=d1 in "hd0", spf=None, dip=False, sym={
                "h": "herm", "8": "real8", "d": "diag", "0": "zero"}[d1])
            h, u = fx.h, fx.u
        if d1 == "f":
            h, u = h.astype(np.float32), u.astype(np.float32)
        if d1 == "i":
            h, u = np.rint(9 * h).astype(int), np.rint(9 * u).astype(int)
        if kind == "gos":
            u = asym(u)
        sy = system(kind, n, h, u)
        big = 1 + l * l
        tol = 1e-12 if d1 != "f" else 1e-5
        e, f = formula(kind, n, h.astype(complex), u.astype(complex))
        check_e(st, sy, e, where, 9 * big, tol)
        bufs = BUF if d1 not in "fi" else ("none",)
        if "few" in case:
            bufs = ("none", "garbage")
        check_fock(st, sy, h, u, f, where, tol, bufs)
        if "few" in case:
            return st
        # elements other than the system's own
        h2 = R.generic((l, l), True, "h52")
        u2 = asym(R.generic((l,) * 4, True, "u52"))
        e, f = formula(kind, n, h2, u2)
        check_fock(st, sy, h2, u2, f, where + " other elements",
                   bufs=("none", "nan"))
        return st
    # full Fock space
    h = R.generic((l, l), True, "h5f")
    u = sym(R.generic((l,) * 4, True, "u5f"))
    sy = system(kind, n, h, asym(u) if kind == "gos" else u)
    for op in case["hist"]:
        C, Ct = R.coeff(op[3:], l)
        sy.change_basis(C, Ct)
        Ct = C.conj().T if Ct is None else Ct
        h = Ct @ h @ C
        u = np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C, optimize=True)
    if kind == "gos":
        e, f = mean_field(h, u, range(n))
    else:
        H = np.kron(h, np.eye(2))
        U = np.zeros((2 * l,) * 4, dtype=complex)
        for a in (0, 1):
            for b in (0, 1):
                U[a::2, b::2, a::2, b::2] = u
        e, F = mean_field(H, U, range(2 * n))
        f = F[::2, ::2]
        if np.max(np.abs(F[1::2, 1::2] - f)) > 1e-9 * np.max(np.abs(F)):
            raise RuntimeError("oracle: spin blocks differ")
    sc = np.max(np.abs(h)) * l + np.max(np.abs(u)) * l * l * 4
    check_e(st, sy, e, where, sc, 1e-11)
    check_fock(st, sy, sy.h, sy.u, f, where, 1e-11, ("none", "nan", "garbage"))
    return st


def both(case, st, where):
    l, n = case["l"], case["n"]
    fx = R.Fx(l=l, spf=None, dip=False)
    fx.u = sym(fx.u)
    sy = SpatialOrbitalSystem(2 * n, fx.build(BasisSet))
    for op in case["hist"]:
        C, Ct = R.coeff(op[3:], sy.l)
        if C.shape[1] < n:
            raise Infeasible
        sy.change_basis(C, Ct)
    a, b = R.SPIN_BASES[case["sb"]]
    g = sy.construct_general_orbital_system(a=a, b=b)
    e1, e2 = sy.compute_reference_energy(), g.compute_reference_energy()
    st.step(2)
    sc = np.max(np.abs(sy.h)) * l + np.max(np.abs(sy.u)) * l * l * 4 + 1e-300
    if not abs(e1 - e2) <= 1e-11 * sc:
        raise Violation(f"{where}: energies {e1} (spatial) and {e2} (general)")
    f1 = sy.construct_fock_matrix(sy.h, sy.u)
    f2 = g.construct_fock_matrix(g.h, g.u)
    for s in (0, 1):
        for t in (0, 1):
            want = f1 if s == t else np.zeros_like(f1)
            st.step()
            if not R.close(f2[s::2, t::2], want, 1e-11, sc):
                raise Violation(f"{where}: spin block {s}{t}: "
                                + R.describe("f", f2[s::2, t::2], want))
    # general-orbital system built directly: any particle number
    for N in range(2 * sy.l + 1):
        gg = GeneralOrbitalSystem(N, R.basis_of(sy).copy_basis(), a=a, b=b)
        e, f = formula("gos", N, np.asarray(g.h), np.asarray(g.u))
        check_e(st, gg, e, f"{where} N={N}", sc * 4, 1e-11)
        check_fock(st, gg, gg.h, gg.u, f, f"{where} N={N}", 1e-11, ("none",))
    return st


def history(case, st, where, l=3, n=2):
    kind = case["kind"]
    gos = kind == "gos"
    k = [0]

    def new(d):
        k[0] += 1
        a = R.generic((l,) * d, True, f"hist{k[0]}")
        return asym(a) if gos and d == 4 else a
    h, u = new(2), new(4)
    sy = system(kind, n, h.copy(), u.copy())
    own = [new(2), new(4)]
    for op in case["hist"]:
        st.step()
        b = R.basis_of(sy)
        if op == "e":
            sy.compute_reference_energy()
        elif op == "f":
            sy.construct_fock_matrix(sy.h, sy.u)
        elif op == "g":
            sy.construct_fock_matrix(*own)
        elif op == "sh":
            b.h = new(2)
        elif op == "su":
            b.u = new(4)
        elif op == "wh":
            b.h[...] = new(2)
        elif op == "wu":
            b.u[...] = new(4)
        elif op == "ph":
            own[0][...] = new(2)
        elif op == "pu":
            own[1][...] = new(4)
        else:
            sy.change_basis(*R.coeff(op[3:], l))
    h, u = np.array(sy.h), np.array(sy.u)
    st.state(R.digest(h, u, *own))
    e, f = formula(kind, n, h, u)
    sc = 1 + np.max(np.abs(h)) * l + np.max(np.abs(u)) * l * l * 4
    check_e(st, sy, e, where, sc)
    e2, f2 = formula(kind, n, *own)
    both = ((sy.h, sy.u, f, "own elements"), (*own, f2, "other elements"))
    for a, c, want, w in both if case["last"] == "f" else both[::-1]:
        st.step()
        got = sy.construct_fock_matrix(a, c)
        if not R.close(got, want, 1e-12, sc):
            raise Violation(f"{where}, {w}: "
                            + R.describe("Fock matrix", got, want))
    return st
