"""C19: molecular systems carry the integrals of the requested molecule."""
import contextlib
import io
import itertools
import math

import numpy as np
import pyscf
from pyscf.data.elements import charge as Z_of

from mc.core import Infeasible, Stats, Violation, frames_in_repo
from mc import ref as R
from quantum_systems import (
    construct_pyscf_system_ao, construct_pyscf_system_rhf)

RULE = """
A case is one point of molecule x basis set x charge/cartesian option x
constructor x spin option x anti-symmetrisation x array module.  Atomic-orbital
elements are compared one by one with integrals evaluated directly for a
geometry given in bohr; nuclear repulsion from the coordinates.  The
Hartree-Fock system is compared through all traces of products (length <= 3)
of overlap-weighted operators and all two-body contractions with them, the
orthonormality, the energy of an independent RHF run and the Fock matrix; the
spin variants are split into spin blocks and judged the same way.
Non-trivial: always.
"""
ASSUMPTIONS = [
    "pyscf's integrals and RHF solver are trusted; energy tolerance 1e-7, Fock "
    "off-diagonal tolerance 5e-4 (pyscf's default convergence)",
]
CHUNK = 1
MOL = {
    "he": ([("He", (0, 0, 0))], 0),
    "he_off": ([("He", (0.3, -1.2, 2.0))], 0),
    "h2": ([("H", (0, 0, -0.7)), ("H", (0, 0, 0.7))], 0),
    "h2_off": ([("H", (1, 0.5, 0)), ("H", (1, 0.5, 1.4))], 0),
    "hehp": ([("He", (0, 0, 0)), ("H", (0.2, 0, 1.46))], 1),
    "hm": ([("H", (0, 0.1, 0))], -1),
    "lip": ([("Li", (0, 0, 0))], 1),
    "be": ([("Be", (0, 0, 0))], 0),
    "lih": ([("Li", (0.1, 0.2, 0)), ("H", (0.1, 0.2, 3.08))], 0),
    "bh": ([("B", (0, 0, 0)), ("H", (0, 2.33, 0))], 0),
    "hf": ([("H", (1.7, 0, 0)), ("F", (0, 0, 0))], 0),
    "h2o": ([("O", (0, 0, 0.1)), ("H", (0, 1.43, 1.2)),
             ("H", (0, -1.43, 1.2))], 0),
    "nh3": ([("N", (0, 0, 0)), ("H", (1.77, 0, 0.7)),
             ("H", (-0.885, 1.53, 0.7)), ("H", (-0.885, -1.53, 0.7))], 0),
    "ohm": ([("O", (0, 0, 0)), ("H", (0, 0, 1.83))], -1),
    "ne": ([("Ne", (0, 0, 0))], 0),
    "n2": ([("N", (0, 0, 0)), ("N", (0, 0, 2.07))], 0),
    "h4": ([("H", (0, 0, 0)), ("H", (0, 0, 1.5)), ("H", (0, 0, 4)),
            ("H", (0, 0, 5.6))], 0),
}
# effective core potentials, functions without a nucleus, a basis per element
# (molecule, charge, pyscf options, core electrons / missing protons per atom)
SPECIAL = {
    "nah_ecp": ([("Na", (0.1, 0, 0.2)), ("H", (0.1, 0.3, 3.7))], 0,
                dict(basis="lanl2dz", ecp={"Na": "lanl2dz"}), [10, 0]),
    "nah_ecp_na": ([("Na", (0, 0, 0)), ("H", (0, 0, 3.5))], 0,
                   dict(basis={"Na": "lanl2dz", "H": "sto-3g"},
                        ecp={"Na": "lanl2dz"}), [10, 0]),
    "kp_ecp": ([("K", (0, 0.4, 0))], 1,
               dict(basis="lanl2dz", ecp="lanl2dz"), [10]),
    "he_ghost": ([("He", (0, 0, 0.3)), ("ghost-H", (0, 0, 1.9))], 0,
                 dict(basis={"He": "6-31g", "H": "6-31g"}), [0, 1]),
    "lih_mixed": ([("Li", (0, 0, 0)), ("H", (0, 0.5, 3))], 0,
                  dict(basis={"Li": "sto-3g", "H": "cc-pvdz"}), [0, 0]),
    "h2_labels": ([("H1", (0, 0, 0)), ("H2", (0, 0.2, 1.4))], 0,
                  dict(basis={"H1": "sto-3g", "H2": "6-31g"}), [0, 0]),
}
BASES = {
    "sto-3g": [m for m in MOL],
    "6-31g": ["he", "h2_off", "hehp", "be", "lih", "bh", "h2o", "hm"],
    "cc-pvdz": ["he_off", "h2", "be", "lih", "hehp"],
    "cc-pvtz": ["he"],
    "aug-cc-pvdz": ["he", "h2_off", "hehp", "hm", "lih"],
    "6-311g**": ["lih", "bh", "h2o", "be", "hehp"],
}
CART = [("be", "cc-pvdz"), ("lih", "cc-pvdz"), ("he", "cc-pvtz"),
        ("h2o", "6-31g*")]
OPT = [(sp, as_) for sp in (None, False, True) for as_ in (None, False, True)]


def bounds(tier):
    return dict(molecules={k: v[0] for k, v in MOL.items()}, bases=BASES,
                special={k: [str(x) for x in v] for k, v in SPECIAL.items()},
                cartesian=CART, options=OPT)


def cases(tier):
    for basis, mols in BASES.items():
        for m in mols:
            if tier == "quick" and basis in ("aug-cc-pvdz", "6-311g**"):
                continue
            for kind in ("ao", "rhf"):
                for sp, as_ in OPT:
                    yield dict(mol=m, basis=basis, kind=kind, spin=sp,
                               anti=as_)
    for m in SPECIAL:
        for kind in ("ao", "rhf"):
            for sp, as_ in ((False, None), (True, True), (True, False)):
                yield dict(mol=m, special=1, kind=kind, spin=sp, anti=as_)
    for m, basis in CART:
        for kind in ("ao", "rhf"):
            for cart in (True, False):
                yield dict(mol=m, basis=basis, kind=kind, spin=False,
                           anti=None, cart=cart)
    for m in ("he_off", "lih", "hehp"):
        for kind in ("ao", "rhf"):
            for spin in (False, True):
                yield dict(mol=m, basis="sto-3g", kind=kind, spin=spin,
                           anti=True, shim=1)
                for fmt in ("newline", "upper", "lower", "exp", "comment"):
                    yield dict(mol=m, basis="sto-3g", kind=kind, spin=spin,
                               anti=True, fmt=fmt)
    for m in ("he", "lih"):
        for kind in ("ao", "rhf"):
            yield dict(mol=m, basis=None, kind=kind, spin=False, anti=None)
            yield dict(mol=m, basis="sto-3g", kind=kind, spin=False, anti=None,
                       verbose=1)
    for kind in ("ao", "rhf"):
        for m, q in (("lih", 1), ("he", 1), ("h2o", -1)):
            yield dict(odd=q, mol=m, kind=kind, spin=True)
            yield dict(odd=q, mol=m, kind=kind, spin=False)
    for kind in ("ao", "rhf"):  # more functions
        for m, basis in (("n2", "cc-pvdz"), ("hf", "aug-cc-pvdz")):
            yield dict(mol=m, basis=basis, kind=kind, spin=False, anti=None)
    yield dict(mol="h4", basis="sto-3g", kind="ao", spin=True, anti=True,
               high=2)
    yield dict(mol="n2", basis="sto-3g", kind="ao", spin=False, anti=True,
               high=2)


def text(atoms, fmt=None):
    sep = "\n" if fmt == "newline" else "; "
    f = "%s %.10e %.10e %.10e" if fmt == "exp" else "%s %r %r %r"
    out = sep.join(f % (s.lower() if fmt == "lower" else
                        s.upper() if fmt == "upper" else s, *xyz)
                   for s, xyz in atoms)
    if fmt == "comment":
        out = "# " + out.replace("; ", "\n# in bohr\n\n") + "\n"
        out = "# geometry\n" + out[2:]
    return out


def molecule(case):
    if case.get("special"):
        return SPECIAL[case["mol"]]
    atoms, q = MOL[case["mol"]]
    return atoms, q, {}, [0] * len(atoms)


def build(case):
    atoms, q, extra, _ = molecule(case)
    kw = dict(extra)
    if case.get("basis"):
        kw["basis"] = case["basis"]
    if case["spin"] is not None:
        kw["add_spin"] = case["spin"]
    if case.get("anti") is not None:
        kw["anti_symmetrize"] = case["anti"]
    q = case.get("odd", 0) or q
    if q:
        kw["charge"] = q
    if case.get("cart") is not None:
        kw["cart"] = case["cart"]
    if case.get("shim"):
        kw["np"] = R.SHIM
    if case.get("verbose") and case["kind"] == "rhf":
        kw["verbose"] = True
    if case.get("high"):
        kw["spin"] = case["high"]
    f = construct_pyscf_system_ao if case["kind"] == "ao" else \
        construct_pyscf_system_rhf
    with contextlib.redirect_stdout(io.StringIO()):
        return f(text(atoms, case.get("fmt")), **kw)


class Oracle:
    def __init__(self, case):
        atoms, q, extra, core = molecule(case)
        kw = dict(basis=case.get("basis") or "cc-pvdz")
        kw.update(extra)
        mol = pyscf.gto.M(
            atom=[[s, [float(c) for c in xyz]] for s, xyz in atoms],
            charge=q, unit="B", cart=bool(case.get("cart")), verbose=0,
            spin=case.get("high", 0), **kw)
        self.mol = mol
        self.h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
        if "ecp" in extra:
            self.h = self.h + mol.intor("ECPscalar")
        self.s = mol.intor("int1e_ovlp")
        eri = mol.intor("int2e")
        self.l = len(self.s)
        self.u = np.einsum("prqs->pqrs", eri.reshape((self.l,) * 4))
        with mol.with_common_orig((0.0, 0.0, 0.0)):
            self.d = mol.intor("int1e_r")
        Z = [Z_of(s.split("-")[-1].rstrip("12")) - c
             for (s, _), c in zip(atoms, core)]
        X = np.array([xyz for _, xyz in atoms], float)
        self.n = sum(Z) - q
        self.enuc = sum(
            Z[i] * Z[j] / math.dist(X[i], X[j])
            for i in range(len(Z)) for j in range(i))
        self.center = (np.array(Z)[:, None] * X).sum(0) / sum(Z)


def close(got, want, what, case, tol=1e-9):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation(f"{case}: {what} has shape {got.shape}, expected "
                        f"{want.shape}")
    sc = max(1.0, np.abs(want).max(initial=0))
    if not np.all(np.abs(got - want) <= tol * sc):
        raise Violation(f"{case}: {R.describe(what, got, want)}")


def run_case(case):
    st = Stats()
    st.state(R.digest(repr(case)))
    if "odd" in case:
        st.step()
        try:
            build(case)
        except Exception as e:  # noqa
            if frames_in_repo(e):
                return st
            raise
        raise Violation(f"{case}: odd electron number accepted")
    o = Oracle(case)
    sy = build(case)
    st.step()
    spin = case["spin"] is not False
    if abs(sy.nuclear_repulsion_energy - o.enuc) > 1e-9 * max(1, o.enuc):
        raise Violation(f"{case}: nuclear repulsion "
                        f"{sy.nuclear_repulsion_energy}, expected {o.enuc}")
    n_occ = o.n if spin else o.n // 2
    if sy.n != n_occ or sy.l != o.l * (2 if spin else 1) or \
            R.basis_of(sy).l != sy.l or sy.m != sy.l - sy.n:
        raise Violation(f"{case}: n={sy.n}, l={sy.l}, m={sy.m}; expected "
                        f"{n_occ} of {o.l}")
    h, s, u, d = (np.asarray(getattr(sy, k)) for k in (
        "h", "s", "u", "dipole_moment"))
    if spin:
        anti = case["anti"] is not False
        if R.basis_of(sy).anti_symmetrized_u != anti:
            raise Violation(f"{case}: anti_symmetrized_u is "
                            f"{R.basis_of(sy).anti_symmetrized_u}")
        full = h, s, u, d
        h, s, u, d = (h[::2, ::2], s[::2, ::2], u[::2, 1::2, ::2, 1::2],
                      d[:, ::2, ::2])
        I2 = np.eye(2)
        close(full[0], np.kron(h, I2), "h, spin blocks", case)
        close(full[1], np.kron(s, I2), "s, spin blocks", case)
        close(full[3], np.array([np.kron(x, I2) for x in d]),
              "dipole, spin blocks", case)
        U = np.zeros((2 * o.l,) * 4, u.dtype)
        for i in (0, 1):
            for j in (0, 1):
                U[i::2, j::2, i::2, j::2] = u
        if anti:
            U = U - np.swapaxes(U, 2, 3)
        close(full[2], U, "u, spin blocks", case)
    if case["kind"] == "ao":
        close(h, o.h, "h", case)
        close(s, o.s, "s", case)
        close(u, o.u, "u", case)
        close(d, o.d, "dipole", case)
        return st
    # Hartree-Fock system
    close(s, np.eye(o.l), "s", case, 1e-8)
    dc = np.array([o.d[i] - o.center[i] * o.s for i in range(3)])
    Si = np.linalg.inv(o.s)
    ao = {"h": o.h, "x": dc[0], "y": dc[1], "z": dc[2]}
    mo = {"h": h, "x": d[0], "y": d[1], "z": d[2]}
    A = {k: Si @ v for k, v in ao.items()}  # mixed index: trace invariant
    for n in (1, 2, 3):
        for w in itertools.product("hxyz", repeat=n):
            a = np.trace(np.linalg.multi_dot([A[k] for k in w])
                         if n > 1 else A[w[0]])
            m = np.trace(np.linalg.multi_dot([mo[k] for k in w])
                         if n > 1 else mo[w[0]])
            scale = max(1.0, *(np.prod([np.linalg.norm(M[k]) for k in w])
                               for M in (A, mo)))
            st.step()
            if abs(a - m) > 1e-8 * scale:
                raise Violation(f"{case}: trace of {w}: {m} in the HF basis, "
                                f"{a} from the atomic orbitals")
    con = {k: v @ Si for k, v in A.items()}
    con["1"], momo = Si, dict(mo)
    momo["1"] = np.eye(o.l)
    for a, b in itertools.product("hxyz1", repeat=2):
        for what, sub in (("direct", "pqrs,rp,sq->"),
                          ("exchange", "pqrs,sp,rq->")):
            x = np.einsum(sub, o.u, con[a], con[b], optimize=True)
            y = np.einsum(sub, u, momo[a], momo[b], optimize=True)
            st.step()
            if abs(x - y) > 1e-8 * max(
                    1.0, np.linalg.norm(u) * np.linalg.norm(momo[a])
                    * np.linalg.norm(momo[b])):
                raise Violation(f"{case}: {what} contraction of u with "
                                f"({a}, {b}): {y}, expected {x}")
    e = complex(sy.compute_reference_energy()) if not spin or anti else None
    mf = pyscf.scf.RHF(o.mol)
    mf.verbose = 0
    e_tot = mf.kernel()
    if e is not None and abs(e + sy.nuclear_repulsion_energy - e_tot) > 1e-6:
        raise Violation(f"{case}: reference energy + nuclear repulsion "
                        f"{e + sy.nuclear_repulsion_energy}, RHF {e_tot}")
    oc = slice(0, o.n // 2)
    F = h + 2 * np.einsum("piqi->pq", u[:, oc, :, oc]) - np.einsum(
        "piiq->pq", u[:, oc, oc, :])
    fs = [("own", F)]
    if not spin or anti:
        fs.append(("constructed", np.asarray(
            sy.construct_fock_matrix(sy.h, sy.u))))
    for what, f in fs:
        off = np.abs(f - np.diag(np.diag(f))).max(initial=0)
        if off > 5e-4:
            raise Violation(f"{case}: {what} Fock matrix off-diagonal {off}")
        eps = np.real(np.diag(f))
        if what == "own" and len(eps) > o.n // 2 and o.n and \
                eps[:o.n // 2].max() > eps[o.n // 2:].min() + 1e-6:
            raise Violation(f"{case}: occupied orbitals are not the lowest: "
                            f"{eps}")
    e2 = 2 * np.trace(h[oc, oc]) + 2 * np.einsum(
        "ijij->", u[oc, oc, oc, oc]) - np.einsum("ijji->", u[oc, oc, oc, oc])
    if abs(e2 + o.enuc - e_tot) > 1e-6:
        raise Violation(f"{case}: energy of the first orbitals {e2 + o.enuc}, "
                        f"RHF {e_tot}")
    return st
