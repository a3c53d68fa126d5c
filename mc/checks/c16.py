"""C16: 1D dot elements are the grid integrals of the returned functions."""
import math

import numpy as np
import scipy.linalg

from mc.core import Stats, Violation
from mc import ref as R
from mc.checks.c14 import near
from quantum_systems import ODQD
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO
from quantum_systems.quantum_dots.one_dim import one_dim_potentials as P

RULE = """
A case is one point of the lattice class x potential x size x grid (odd, even,
minimal, length) x screening x strength x non-dipole parameter x module,
optionally followed by a repeated set-up with other parameters.  Functions are
checked against the discretised eigenvalue problem (residual, orthonormality,
lowest eigenvalues), elements against independent quadrature over the
functions returned.  Non-trivial: always.
"""
ASSUMPTIONS = [
    "finite-difference problem: three-point kinetic energy, functions vanish "
    "at both ends of the grid; integrals by the trapezoidal rule",
    "potential values are taken from the potential passed in (C18 checks them)",
]
CHUNK = 8
A = [0.25, 1, 0.05, 2.0, -0.4]
ALPHA = [1.0, 0, -1.5, 2]
BETA = [0, 0.3, -1.0]


class Lin:
    def __call__(self, x):
        return 0.4 * np.abs(x) + 0.1 * x


class HalfGauss(P.OneDimPotential):
    def __call__(self, x):
        return -3 * np.exp(-x ** 2) + 0.05 * x ** 3 * (x > 0)


POT = {
    "none": lambda: None,
    "ho": lambda: P.HOPotential(1),
    "ho2": lambda: P.HOPotential(0.6),
    "dw": lambda: P.DWPotential(1, 3),
    "dwl": lambda: P.DWPotential(1, 8.0),
    "dws": lambda: P.DWPotentialSmooth(),
    "dws5": lambda: P.DWPotentialSmooth(a=5),
    "sdw": lambda: P.SymmetricDWPotential(0.05, 0.1, -0.7),
    "adw": lambda: P.AsymmetricDWPotential(0.1, 0.2, -1),
    "gauss": lambda: P.GaussianPotential(2.0, 0.5, 1.5, np),
    "hw": lambda: P.GaussianPotentialHardWall(2.0, 0.5, 1.5, 2.5),
    "atom": lambda: P.AtomicPotential(),
    "lin": lambda: Lin(),
    "user": lambda: HalfGauss(),
    "lambda": lambda: (lambda x: 0.3 * x ** 2 - 0.4 * x),
    "free": lambda: (lambda x: 0 * x),
}
GRIDS = [(4, 9), (4.0, 10), (6, 31), (10, 64), (2.5, 17)]


def bounds(tier):
    return dict(potentials=sorted(POT), sizes=sizes(tier), grids=GRIDS
                + ["minimal: l + 2 points", (8, 201)],
                a=A, alpha=ALPHA, beta=BETA)


def sizes(tier):
    return [1, 2, 3, 5, 7] if tier == "quick" else list(range(1, 13))


def setup(tier):
    ODQD(2, 3, 7)
    ODHO(2, 3, 7)


def cases(tier):
    q = tier == "quick"
    for pot in POT:
        for l in sizes(tier):
            for gi, (L, n) in enumerate(GRIDS):
                if n < l + 2:
                    continue
                for ia, a in enumerate(A):
                    for ib, al in enumerate(ALPHA):
                        be = BETA[(ia + ib + gi + l) % 3]
                        yield dict(cls="qd", pot=pot, l=l, L=L, n=n, a=a,
                                   alpha=al, beta=be)
            if True:
                yield dict(cls="qd", pot=pot, l=l, L=3, n=l + 2, a=0.5,
                           alpha=1.5, beta=0.2)
    for l in sizes(tier):
        for om in (0.25, 1, 2.0, 0.7):
            for L, n in GRIDS + [(3, 2)]:
                for a in A:
                    yield dict(cls="ho", om=om, l=l, L=L, n=n, a=a,
                               alpha=ALPHA[(l + n) % 4], beta=0)
    for l in (8, 12, 20):
        yield dict(cls="ho", om=1, l=l, L=11, n=201, a=0.25, alpha=1.0,
                   beta=0, fine=1)
        yield dict(cls="qd", pot="ho", l=l, L=11, n=201, a=0.25, alpha=1.0,
                   beta=0.1)
    for l in (30, 40) if q else (30, 40, 60):
        yield dict(cls="ho", om=0.6, l=l, L=9, n=7, a=0.3, alpha=1.2, beta=0)
        yield dict(cls="qd", pot="dw", l=l, L=9, n=l + 3, a=0.3, alpha=1.2,
                   beta=0.1)
    for n in (401, 600) if q else (401, 600, 1001, 2000):
        yield dict(cls="qd", pot="ho", l=2, L=12, n=n, a=0.3, alpha=1.1,
                   beta=0.2)
        yield dict(cls="ho", om=0.9, l=2, L=12, n=n, a=0.3, alpha=1.1, beta=0)
    yield dict(cls="ho", om=0.25, l=6, L=25, n=301, a=0.25, alpha=1.0,
               beta=0, fine=1)
    for pot in POT:
        yield dict(cls="qd", pot=pot, l=4, L=8, n=201, a=0.25, alpha=1.0,
                   beta=0)
    for l in (1, 3, 5):
        for cls in ("ho", "qd"):
            yield dict(cls=cls, pot="none", l=l, L=5, n=21, a=0.25, alpha=1.0,
                       beta=0, om=0.25, defaults=1)
            yield dict(cls=cls, pot="dw", l=l, L=5, n=21, a=0.3, alpha=2.0,
                       beta=0, om=0.8, shim=1)
            for a2 in (0.3, 1.1):
                for al2 in (2.0, 0.5):
                    for b2 in (0, 0.4) if cls == "qd" else (0,):
                        for p2 in ("dw", "atom") if cls == "qd" else ("dw",):
                            yield dict(
                                cls=cls, pot="dw", l=l, L=5, n=21, a=0.3,
                                alpha=2.0, beta=0, om=0.8,
                                again=dict(a=a2, alpha=al2, beta=b2, pot=p2,
                                           om=0.8 if a2 < 1 else 1.7))
    if not q:
        for l in (9, 13, 16):
            for pot in ("ho", "dw", "sdw", "gauss"):
                yield dict(cls="qd", pot=pot, l=l, L=9, n=128, a=0.4,
                           alpha=0.7, beta=0.3)


def build(case):
    kw = {}
    if not case.get("defaults"):
        kw = dict(a=case["a"], alpha=case["alpha"])
        if case["cls"] == "ho":
            kw["omega"] = case["om"]
        else:
            kw["beta"] = case["beta"]
    if case.get("shim"):
        kw["np"] = R.SHIM
    if case["cls"] == "ho":
        return ODHO(case["l"], case["L"], case["n"], **kw)
    pot = POT[case["pot"]]()
    if pot is not None:
        kw["potential"] = pot
    return ODQD(case["l"], case["L"], case["n"], **kw)


def run_case(case):
    st = Stats()
    bs = build(case)
    st.step()
    verify(bs, case, case, st)
    if "again" in case:
        n = dict(case, **case["again"])
        bs.a, bs.alpha = n["a"], n["alpha"]
        if case["cls"] == "qd":
            bs.beta, bs.potential = n["beta"], POT[n["pot"]]()
        else:
            bs.omega = n["om"]
        for i in (0, 1):
            bs.setup_basis()
            st.step()
            verify(bs, n, case, st)
        if case["cls"] == "qd":
            # only the dipole again, after a change of its parameter
            bs.beta = n["beta"] + 0.5
            bs.construct_dipole_moment()
            verify(bs, dict(n, beta=bs.beta), case, st)
    return st


def hermite_functions(l, om, x):
    """Oscillator functions by the stable recurrence."""
    y = math.sqrt(om) * x
    f = [(om / math.pi) ** 0.25 * np.exp(-y * y / 2)]
    if l > 1:
        f.append(math.sqrt(2) * y * f[0])
    for n in range(2, l):
        f.append(math.sqrt(2 / n) * y * f[-1] - math.sqrt((n - 1) / n) * f[-2])
    return np.array(f[:l])


def verify(bs, c, case, st):
    l, n, L = c["l"], c["n"], c["L"]
    x = np.array([-L + 2 * L * i / (n - 1) for i in range(n)])
    near(bs.grid, x, "grid", case, 1e-12)
    dx = 2 * L / (n - 1)
    w = np.full(n, dx)
    w[0] = w[-1] = dx / 2
    f = np.asarray(bs.spf)
    if f.shape != (l, n) or bs.l != l:
        raise Violation(f"{case}: spf has shape {f.shape}, l={bs.l}")
    if c["cls"] == "qd":
        pot = POT[c["pot"]]()
        if pot is None:
            pot = P.HOPotential(0.25)
        V = np.asarray(pot(x[1:-1]), float)
        d = 1 / dx ** 2 + V
        e = np.full(n - 3, -0.5 / dx ** 2)
        low = scipy.linalg.eigh_tridiagonal(d, e, eigvals_only=True)[:l] \
            if n > 3 else d.copy()
        scale = max(1.0, 2 / dx ** 2, np.abs(V).max() * (n < 300))
        hd = np.asarray(bs.h)
        if hd.shape != (l, l) or np.abs(
                hd - np.diag(np.diag(hd))).max() > 1e-10 * scale:
            raise Violation(f"{case}: h not diagonal")
        E = np.real(np.diag(hd))
        if np.abs(np.diag(hd) - low).max() > 1e-10 * scale:
            raise Violation(f"{case}: h diagonal {np.diag(hd)}, lowest "
                            f"eigenvalues {low}")
        if np.any(np.diff(E) < -1e-10 * scale):
            raise Violation(f"{case}: energies not ordered: {E}")
        if max(np.abs(f[:, 0]).max(), np.abs(f[:, -1]).max()) > 1e-10:
            raise Violation(f"{case}: functions do not vanish at the ends")
        Hf = d * f[:, 1:-1]
        Hf[:, 1:] += e * f[:, 1:-2]
        Hf[:, :-1] += e * f[:, 2:-1]
        res = np.abs(Hf - E[:, None] * f[:, 1:-1]).max() * math.sqrt(dx)
        if not res <= 1e-9 * scale:
            raise Violation(f"{case}: residual of the eigenvalue problem {res}")
        near(np.einsum("pi,qi,i->pq", f.conj(), f, w), np.eye(l),
             "overlap of the functions on the grid", case, 1e-10)
        op = x + c["beta"] * x ** 2
        dip = np.einsum("pi,qi,i->pq", f.conj(), f, w * op)[None]
        # vanishing elements are judged on the scale of the operator
        sc = np.abs(op).max()
        near(np.asarray(bs.dipole_moment) / sc + 1, dip / sc + 1,
             "dipole (scaled, shifted by one)", case, 1e-11)
    else:
        near(bs.h, np.diag([c["om"] * (i + 0.5) for i in range(l)]), "h", case,
             1e-12)
        near(f, hermite_functions(l, c["om"], x), "spf", case, 1e-8)
        dip = np.zeros((1, l, l))
        for i in range(l - 1):
            dip[0, i, i + 1] = dip[0, i + 1, i] = math.sqrt(
                (i + 1) / (2 * c["om"]))
        near(bs.dipole_moment, dip, "dipole", case, 1e-9)
        if c.get("fine"):
            near(np.einsum("pi,qi,i->pq", f.conj(), f, w), np.eye(l),
                 "overlap of the functions on the grid", case, 1e-8)
    near(bs.s, np.eye(l), "s", case, 1e-12)
    en = getattr(bs, "eigen_energies", None)
    if en is not None:
        near(en, np.real(np.diag(np.asarray(bs.h))), "eigen_energies", case,
             1e-10)
    W = c["alpha"] / np.sqrt((x[:, None] - x[None]) ** 2 + c["a"] ** 2)
    rho = f.conj()[:, None] * f[None] * w
    r2 = rho.reshape(l * l, n)
    u = (r2 @ W @ r2.T).reshape(l, l, l, l).transpose(0, 2, 1, 3)
    sc = max(abs(c["alpha"] / c["a"]), 1.0)
    near(np.asarray(bs.u) / sc + 1, u / sc + 1, "u (scaled, shifted by one)",
         case, 1e-10)
    st.state(R.digest(c["cls"], c.get("pot"), l, n, L, c["a"], c["alpha"],
                      c["beta"], c.get("om")))
