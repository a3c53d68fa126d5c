"""Boring reference model of a basis set, plus fixtures and operations.

The reference never updates an element array step by step: it keeps the
*original* arrays and the accumulated ket matrix K and bra matrix B and
recomputes every observable from scratch with plain einsum, so an error that
builds up along a history in the implementation cannot build up here too.
"""
import types

import numpy as np

from mc.core import SEED, Infeasible, Violation, digest

TOL = 1e-11


# ---------------------------------------------------------------- values
def rng(*key):
    return np.random.RandomState(
        int.from_bytes(digest(SEED, *key)[:4], "little")
    )


def generic(shape, cplx, *key):
    """Deterministic generic numbers bounded away from 0 (|x| in [0.25, 1])."""
    r = rng("generic", shape, *key)
    a = r.uniform(0.25, 1.0, shape) * r.choice([-1.0, 1.0], shape)
    if cplx:
        b = r.uniform(0.25, 1.0, shape) * r.choice([-1.0, 1.0], shape)
        return a + 1j * b
    return a


def unitary(l, cplx, *key):
    a = generic((l, l), cplx, "unitary", *key) + 2 * np.eye(l)
    q, r = np.linalg.qr(a)
    return q


def overlap_matrix(l, kind, cplx):
    if kind == "eye":
        return np.eye(l)
    a = generic((l, l), cplx, "s")
    if kind == "grade":  # from clearly overlapping to (nearly) orthogonal
        e = -1.0 - 3.0 * np.abs(np.subtract.outer(np.arange(l), np.arange(l)))
        e -= 0.7 * np.minimum.outer(np.arange(l), np.arange(l))
        g = np.triu(a / np.abs(a), 1) * 10.0 ** e
        return np.eye(l) + g + g.conj().T
    return np.eye(l) + 0.2 * (a + a.conj().T) / max(l, 1)


def shim_module(name="numpy_shim"):
    """A distinct array module with numpy semantics."""
    m = types.ModuleType(name)
    for k in dir(np):
        if not k.startswith("__"):
            try:
                setattr(m, k, getattr(np, k))
            except Exception:  # pragma: no cover
                pass
    return m


SHIM = shim_module()

S2 = 1 / np.sqrt(2)
SPIN_BASES = {
    "z": ([1, 0], [0, 1]),
    "zr": ([0, 1], [1, 0]),
    "x": ([S2, S2], [S2, -S2]),
    "y": ([S2, 1j * S2], [S2, -1j * S2]),
    "gen": (
        [np.cos(0.3), np.exp(0.7j) * np.sin(0.3)],
        [-np.exp(-0.7j) * np.sin(0.3) * np.exp(0.2j), np.cos(0.3) * np.exp(0.2j)],
    ),
    "ph": ([1j, 0], [0, -1]),
}
# every exact permutation of the spin axes with phases from {1, i, -1, -i}
SPIN_EXACT = {}
for _i, _p in enumerate((1, 1j, -1, -1j)):
    for _j, _q in enumerate((1, 1j, -1, -1j)):
        SPIN_EXACT[f"n{_i}{_j}"] = ([_p, 0], [0, _q])
        SPIN_EXACT[f"f{_i}{_j}"] = ([0, _p], [_q, 0])
PAULI = [
    np.array([[0, 1], [1, 0]], dtype=complex),
    np.array([[0, -1j], [1j, 0]]),
    np.array([[1, 0], [0, -1]], dtype=complex),
]


def pauli_in(a, b):
    V = np.array([a, b], dtype=complex).T  # columns a, b
    return [V.conj().T @ s @ V for s in PAULI]


# ---------------------------------------------------------------- fixtures
class Fx:
    """Contents of a basis set."""

    def __init__(self, l=2, dim=1, cplx=True, s="pos", dip=True, spf="ket",
                 scale=1.0, grid=3, spin=False, nuc=0.7, sym=None, lay=None):
        self.__dict__.update(l=l, dim=dim, cplx=cplx, skind=s, hasdip=dip,
                             spfkind=spf, scale=scale, spin=spin, nuc=nuc,
                             lay=lay)
        L = l
        c = cplx
        self.h = scale * generic((L, L), c, "h")
        self.s = None if s is None else overlap_matrix(L, s, c)
        self.u = scale * generic((L, L, L, L), c, "u")
        self.dip = scale * generic((dim, L, L), c, "d") if dip else None
        gshape = tuple(grid + i for i in range(dim))
        self.spf = generic((L, *gshape), c, "spf") if spf else None
        self.bra = (
            generic((L, *gshape), c, "bra") if spf == "ketbra" else None
        )
        if sym is not None:
            self.symmetrise(sym)

    def symmetrise(self, sym):
        """Give the elements a structure that physical elements often have
        (and that an implementation might treat specially)."""
        if sym in ("herm", "real8"):
            self.h = self.h + self.h.conj().T
            if self.dip is not None:
                self.dip = self.dip + self.dip.conj().transpose(0, 2, 1)
            self.u = self.u + self.u.transpose(1, 0, 3, 2)
            self.u = self.u + self.u.conj().transpose(2, 3, 0, 1)
            if sym == "real8":
                self.u = self.u + self.u.transpose(2, 1, 0, 3)
        elif sym == "diag":  # eigenbasis, interaction local
            i = np.eye(self.l)
            self.h = self.h * i
            self.u = np.einsum("pqpq,pr,qs->pqrs", self.u, i, i)
            if self.dip is not None:
                self.dip = self.dip * i
        elif sym == "zero":
            self.u = 0 * self.u
            if self.dip is not None:
                self.dip = 0 * self.dip
        elif sym == "int":
            def z(a):
                return None if a is None else np.rint(9 * a.real).astype(int)

            self.h, self.u, self.dip = z(self.h), z(self.u), z(self.dip)
            self.spf, self.bra = z(self.spf), z(self.bra)
            self.s = None if self.s is None else np.eye(self.l, dtype=int)
        else:
            raise KeyError(sym)

    def build(self, cls, npmod=None):
        b = cls(self.l, self.dim, np=npmod, includes_spin=self.spin)

        def own(a):
            if self.lay == "f":
                return np.array(a, order="F")
            if self.lay == "view":  # non-contiguous view
                return np.repeat(a, 2, axis=-1)[..., ::2]
            return a.copy()

        b.h = own(self.h)
        if self.s is not None:
            b.s = own(self.s)
        b.u = own(self.u)
        if self.dip is not None:
            b.dipole_moment = own(self.dip)
        if self.spf is not None:
            b.spf = own(self.spf)
        if self.bra is not None:
            b.bra_spf = own(self.bra)
        b.nuclear_repulsion_energy = self.nuc
        return b


OBS = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y",
       "spin_z", "spin_2", "spin_2_tb")
SCALARS = ("l", "dim", "includes_spin", "anti_symmetrized_u",
           "nuclear_repulsion_energy")


class Ref:
    def __init__(self, fx):
        self.h0, self.s0, self.u0 = fx.h, fx.s, fx.u
        self.d0, self.spf0 = fx.dip, fx.spf
        self.bra0 = fx.bra if fx.bra is not None else (
            None if fx.spf is None else fx.spf.conj())
        self.dim = fx.dim
        self.K = np.eye(fx.l)
        self.B = np.eye(fx.l)
        self.spin = bool(fx.spin)
        self.as_ = False
        self.spins0 = None
        self.sq0 = None
        self.tb0 = None
        self.nuc = fx.nuc

    def clone(self):
        r = object.__new__(Ref)
        r.__dict__.update(self.__dict__)
        return r

    @property
    def l(self):
        return self.K.shape[1]

    # -- transitions
    def change_basis(self, C, Ct=None):
        Ct = C.conj().T if Ct is None else Ct
        self.K = self.K @ C
        self.B = Ct @ self.B

    def double(self, spin_basis, as_, with_spin=True):
        if self.spin:
            return
        I2 = np.eye(2)
        a, b = SPIN_BASES[spin_basis]
        n = len(self.h0)
        if with_spin:
            sig = pauli_in(a, b)
            self.spins0 = [0.5 * np.kron(self.s0, x) for x in sig]
            self.sq0 = 0.75 * np.kron(self.s0, I2)
            self.tb0 = sum(
                np.einsum("pr,qs->pqrs", x, x) for x in self.spins0)
        self.h0 = np.kron(self.h0, I2)
        self.s0 = np.kron(self.s0, I2)
        u = np.zeros((2 * n,) * 4, dtype=complex)
        for i in range(2):
            for j in range(2):
                u[i::2, j::2, i::2, j::2] = self.u0
        self.u0 = u
        if self.d0 is not None:
            self.d0 = np.array([np.kron(d, I2) for d in self.d0])
        if self.spf0 is not None:
            self.spf0 = np.repeat(self.spf0, 2, axis=0)
            self.bra0 = np.repeat(self.bra0, 2, axis=0)
        self.K = np.kron(self.K, I2)
        self.B = np.kron(self.B, I2)
        self.spin = True
        if as_:
            self.as_ = True

    def antisym(self):
        self.as_ = True

    # -- observables
    def one(self, m):
        return None if m is None else self.B @ m @ self.K

    def two(self, m):
        if m is None:
            return None
        t = np.einsum("pa,abcd->pbcd", self.B, m)
        t = np.einsum("qb,pbcd->pqcd", self.B, t)
        t = np.einsum("pqcd,cr->pqrd", t, self.K)
        t = np.einsum("pqrd,ds->pqrs", t, self.K)
        if self.as_:
            t = t - np.swapaxes(t, 2, 3)
        return t

    def obs(self):
        d = self.d0
        sp = self.spins0 or [None] * 3
        return dict(
            h=self.one(self.h0),
            s=self.one(self.s0),
            u=self.two(self.u0),
            dipole_moment=None if d is None else np.array(
                [self.one(x) for x in d]),
            spf=None if self.spf0 is None else np.einsum(
                "ap,a...->p...", self.K, self.spf0),
            bra_spf=None if self.spf0 is None else np.einsum(
                "pa,a...->p...", self.B, self.bra0),
            spin_x=self.one(sp[0]),
            spin_y=self.one(sp[1]),
            spin_z=self.one(sp[2]),
            spin_2=self.one(self.sq0),
            spin_2_tb=self.two(self.tb0),
        )

    def floors(self):
        """Size of the largest sum of absolute terms in each observable: the
        natural unit of rounding error."""
        k = np.abs(self.K).sum(axis=0).max() if self.K.size else 0.0
        b = np.abs(self.B).sum(axis=1).max() if self.B.size else 0.0

        def mx(m):
            return 0.0 if m is None else float(np.max(np.abs(m), initial=0.0))

        sp = self.spins0 or [None] * 3
        return dict(
            h=b * k * mx(self.h0), s=b * k * mx(self.s0),
            u=b * b * k * k * mx(self.u0),
            dipole_moment=b * k * mx(self.d0), spf=k * mx(self.spf0),
            bra_spf=b * mx(self.bra0), spin_x=b * k * mx(sp[0]),
            spin_y=b * k * mx(sp[1]), spin_z=b * k * mx(sp[2]),
            spin_2=b * k * mx(self.sq0),
            spin_2_tb=b * b * k * k * mx(self.tb0))

    def scalars(self):
        return dict(l=self.l, dim=self.dim, includes_spin=self.spin,
                    anti_symmetrized_u=self.as_,
                    nuclear_repulsion_energy=self.nuc)


# ---------------------------------------------------------------- compare
def close(a, b, tol=TOL, floor=0.0):
    """Max-norm agreement relative to the size of the expected values (or of
    the terms they were summed from, `floor`)."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a)):
        return False
    scale = max(np.max(np.abs(b)), floor)
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def same(a, b, tol=TOL, floor=0.0):
    if a is None or b is None:
        return a is None and b is None
    return close(a, b, tol, floor)


def describe(name, got, want):
    def sh(x):
        return None if x is None else np.shape(x)

    txt = f"{name}: shape got {sh(got)} expected {sh(want)}"
    if got is not None and want is not None and sh(got) == sh(want) and np.size(got):
        d = np.abs(np.asarray(got) - np.asarray(want))
        d = np.where(np.isfinite(d), d, np.inf)
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        txt += (f"; worst at {tuple(int(k) for k in i)}: got "
                f"{np.asarray(got)[i]!r} expected {np.asarray(want)[i]!r}")
    return txt


def compare_obs(got, want, where, names=OBS, tol=TOL, floors=None):
    for n in names:
        if not same(got[n], want[n], tol, (floors or {}).get(n, 0.0)):
            raise Violation(f"{where}: {describe(n, got[n], want[n])}")


def basis_of(o):
    """The basis set of a system (or the set itself)."""
    from quantum_systems import BasisSet

    if isinstance(o, BasisSet):
        return o
    b = getattr(o, "_basis_set", None)
    if not isinstance(b, BasisSet):
        b = next(v for v in vars(o).values() if isinstance(v, BasisSet))
    return b


def read_obs(b, names=OBS):
    return {n: getattr(b, n, None) for n in names}


def compare_basis(b, ref, where, tol=TOL, names=OBS, scalars=SCALARS):
    want = ref.scalars()
    for n in scalars:
        if getattr(b, n) != want[n]:
            raise Violation(
                f"{where}: {n} is {getattr(b, n)!r}, expected {want[n]!r}")
    compare_obs(read_obs(b, names), ref.obs(), where, names, tol,
                ref.floors())


def state_key(ref):
    o = ref.obs()
    parts = []
    for n in OBS:
        v = o[n]
        parts.append(b"-" if v is None else np.round(
            np.asarray(v, dtype=complex), 6).tobytes())
    return digest(*parts, repr(ref.scalars()))


# ---------------------------------------------------------------- coefficients
def coeff(kind, l):
    """(C, C_tilde) for a basis of size l; C_tilde None = implied."""
    if kind == "U":
        return unitary(l, True, "U"), None
    if kind == "R":
        return unitary(l, False, "R"), None
    if kind == "N":
        return generic((l, l), True, "N") + 1.5 * np.eye(l), None
    if kind == "B":
        C = generic((l, l), True, "B") + 2 * np.eye(l)
        return C, np.linalg.inv(C)
    if kind == "X":
        return (generic((l, l), True, "X") + np.eye(l),
                generic((l, l), True, "Xt") + 1.5 * np.eye(l))
    if kind == "S":
        if l < 2:
            raise Infeasible
        return unitary(l, True, "S")[:, : l - 1], None
    if kind == "SX":
        if l < 2:
            raise Infeasible
        return (generic((l, l - 1), True, "SX"),
                generic((l - 1, l), True, "SXt"))
    if kind == "G":
        if l > 4:
            raise Infeasible
        return generic((l, l + 1), True, "G"), None
    if kind == "W":  # far more functions than before
        if l > 3:
            raise Infeasible
        return generic((l, 2 * l + 2), True, "W"), None
    if kind == "WX":
        if l > 3:
            raise Infeasible
        return (generic((l, 3 * l), True, "WX"),
                generic((3 * l, l), True, "WXt"))
    if kind == "P":
        return np.roll(np.eye(l, dtype=int), 1, axis=0), None
    if kind == "I":
        return np.eye(l), None
    # one side has a special structure that the other one does not have
    bra = generic((l, l), True, "bra side") + 1.5 * np.eye(l)
    if kind == "IX":
        return np.eye(l), bra
    if kind == "XI":
        return bra, np.eye(l)
    if kind == "DX":
        return np.diag(np.exp(1j * (0.3 + np.arange(l)))), bra
    if kind == "XD":
        return bra, np.diag(np.arange(l) - 1.5)
    if kind == "RX":
        return generic((l, l), False, "RX") + 2 * np.eye(l), bra
    if kind == "XR":
        return bra, generic((l, l), False, "XR") + 2 * np.eye(l)
    if kind == "UX":
        return unitary(l, True, "UX"), bra
    if kind == "UT":  # the adjoint given explicitly
        U = unitary(l, True, "UT")
        return U, U.conj().T
    if kind == "e":  # a tiny rotation, as in a propagation
        g = generic((l, l), True, "e")
        return np.eye(l) + 1e-9 * (g - g.conj().T), None
    if kind == "T":  # the first functions only
        if l < 2:
            raise Infeasible
        return np.eye(l)[:, : l - 1], None
    if kind == "TX":
        if l < 2:
            raise Infeasible
        return np.eye(l)[:, : l - 1], bra[: l - 1]
    if kind == "TP":  # a permutation and truncation
        if l < 2:
            raise Infeasible
        return np.eye(l)[:, ::-1][:, : l - 1], None
    if kind == "D":  # phases
        return np.diag(np.exp(1j * (0.3 + np.arange(l)))), None
    if kind == "H":  # Hermitian and unitary
        v = generic((l, 1), True, "H")
        return np.eye(l) - 2 * v @ v.conj().T / (v.conj().T @ v), None
    if kind == "F":
        big = generic((2 * l, 3 * l), True, "F")
        return big[::2, ::3] + np.eye(l)[::1], None
    if kind == "FT":
        C = np.asfortranarray(generic((l, l), False, "FT") + 2 * np.eye(l))
        return C, np.linalg.inv(C).T.copy().T
    raise KeyError(kind)


def frozen(a):
    """A read-only copy: any write by the code under test raises."""
    if a is None:
        return None
    a = np.array(a)
    a.flags.writeable = False
    return a
