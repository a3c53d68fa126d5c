"""C02: spin doubling puts orbital i, spin s at index 2i+s everywhere."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, ODQD, RandomBasisSet,
    TwoDimensionalHarmonicOscillator, ODSincDVR,
)

RULE = """
A case is a static helper with sizes (all matrix units, several scales and
dtypes), a spin-basis lattice point, or one conversion: (contents, entry point,
spin basis, argument form, anti-symmetrisation, number of repetitions).  Every
element of every converted array is compared with the index rule 2i+s written
out by strided assignment.  Non-trivial: the case converts or doubles something.
"""
ASSUMPTIONS = ["values outside the matrix-unit/generic alphabet: the doubling "
               "maps are linear"]

ENTRY = ["basis", "gos", "construct", "basis_twice", "basis_thrice",
         "gos_on_converted", "gos_twice"]
FORMS = ["list", "tuple", "array", "column", "complexarray"]
GENERIC = {
    "l1": dict(l=1, dim=1),
    "l2ketbra": dict(l=2, dim=2, spf="ketbra"),
    "l3": dict(l=3, dim=1, spf="ket"),
    "l2r3d": dict(l=2, dim=3, spf="ket", cplx=False),
    "l3min": dict(l=3, dim=3, spf=None, dip=False),
    "l2eye": dict(l=2, dim=1, spf="ket", cplx=False, s="eye"),
    "tiny": dict(l=2, dim=1, spf="ketbra", scale=1e-12),
    "huge": dict(l=2, dim=1, spf="ket", scale=1e12),
    "l4": dict(l=4, dim=2, spf="ketbra"),
    "herm": dict(l=3, dim=2, spf="ket", sym="herm"),
    "real8": dict(l=3, dim=1, spf="ket", sym="real8", cplx=False, lay="f"),
    "diag": dict(l=3, dim=3, spf="ketbra", sym="diag", s="eye", lay="view"),
    "zero": dict(l=2, dim=2, spf="ket", sym="zero"),
    "grade": dict(l=4, dim=1, spf="ket", s="grade"),
    "int": dict(l=3, dim=1, spf="ketbra", sym="int"),
}


def bounds(tier):
    return dict(
        helper_sizes="1..6 (one-body), 1..4 (two-body), 1..3-d grids",
        spin_basis_lattice="13 polar x 12 azimuthal x 4 x 4 phases (helper "
        "and full conversion), all 32 exact permutations x fourth roots of 1",
        second_conversion="every spin basis, default arguments included",
        entry_points=ENTRY, argument_forms=FORMS, spin_bases=list(R.SPIN_BASES),
        contents=GENERIC, size_sweep=sizes(tier),
        classes=list(CLASSES))


def sizes(tier):
    return [*range(1, 11), 19, 20] if tier == "quick" else [*range(1, 22)]


CLASSES = {
    "odqd": lambda: ODQD(3, 4, 17),
    "tdho": lambda: TwoDimensionalHarmonicOscillator(3, 4, 5),
    "random": lambda: RandomBasisSet(3, 2),
    "sinc2": lambda: ODSincDVR(3, 2),
    "sinc4": lambda: ODSincDVR(3, 2, u_repr="4d"),
}


def setup(tier):
    for f in CLASSES.values():  # compile before forking
        f()


def cases(tier):
    for fn in ("one", "two", "spf", "bra", "bra_none"):
        for l in range(1, 7 if fn != "two" else 5):
            for cplx in (0, 1):
                yield dict(static=fn, l=l, cplx=cplx)
    for it in range(13):
        yield dict(pauli=it)
    for sb in R.SPIN_EXACT:
        for e in ENTRY[:3]:
            for form in ("list", "column"):
                yield dict(fx="l2ketbra", entry=e, sb=sb, as_=0, form=form)
        for c in ("odqd", "sinc4"):
            yield dict(cls=c, entry="gos", sb=sb, as_=1)
    for it in range(13):
        for k in range(12):
            for e in ENTRY[:3]:
                yield dict(fx="l1", entry=e, sb=[it, k], as_=0, form="column")
    # what a second conversion is asked for must not matter
    for f in ("l1", "l2ketbra"):
        for e in ENTRY[1:]:
            if e in ("basis_twice", "basis_thrice", "gos_on_converted",
                     "gos_twice"):
                for sb in ("z", "zr", "gen", "ph"):
                    for other in [None, *R.SPIN_BASES, *R.SPIN_EXACT]:
                        for frm in ("list", "column"):
                            yield dict(fx=f, entry=e, sb=sb, as_=0,
                                       form=frm, other=other)
    for f in GENERIC:
        for e in ENTRY:
            for sb in R.SPIN_BASES:
                for as_ in (0, 1):
                    yield dict(fx=f, entry=e, sb=sb, as_=as_, form="list")
    for f in ("l2ketbra", "l3"):
        for e in ENTRY[:3]:
            for sb in R.SPIN_BASES:
                for form in FORMS:
                    yield dict(fx=f, entry=e, sb=sb, as_=0, form=form)
    for l in sizes(tier):
        for e in ENTRY[:3] if l < 17 else ENTRY[:1]:
            for cplx in (0, 1) if l < 17 else (1,):
                yield dict(size=l, entry=e, cplx=cplx)
    for c in CLASSES:
        for e in ENTRY:
            for sb in R.SPIN_BASES:
                for as_ in (0, 1):
                    yield dict(cls=c, entry=e, sb=sb, as_=as_)
    # default arguments
    for f in GENERIC:
        for e in ENTRY[:3]:
            yield dict(fx=f, entry=e, sb=None, as_=1, form="list")


def dbl_one(h):
    H = np.zeros((2 * len(h),) * 2, dtype=complex)
    for s in (0, 1):
        H[s::2, s::2] = h
    return H


def dbl_two(u):
    n = len(u)
    U = np.zeros((2 * n,) * 4, dtype=complex)
    for s in (0, 1):
        for t in (0, 1):
            U[s::2, t::2, s::2, t::2] = u
    return U


def dbl_f(f):
    F = np.zeros((2 * len(f),) + f.shape[1:], dtype=complex)
    for s in (0, 1):
        F[s::2] = f
    return F


def full4(u):
    """condensed sinc-DVR storage -> full elements"""
    if u.ndim == 4:
        return u
    n = len(u)
    U = np.zeros((n,) * 4, dtype=complex)
    for p in range(n):
        for q in range(n):
            U[p, q, p, q] = u[p, q]
    return U


def form(v, f):
    if f == "list":
        return list(v)
    if f == "tuple":
        return tuple(v)
    if f == "array":
        return R.frozen(np.array(v))
    if f == "column":
        return R.frozen(np.array(v, dtype=complex).reshape(-1, 1))
    return R.frozen(np.array(v, dtype=complex))


def chk(st, name, got, want, where, tol=1e-13):
    st.step()
    if not R.same(got, want, tol):
        raise Violation(f"{where}: {R.describe(name, got, want)}")


def static_case(case):
    st = Stats()
    l, c = case["l"], bool(case["cplx"])
    fn = case["static"]
    if fn == "bra_none":
        if BasisSet.add_spin_bra_spf(None, np) is not None:
            raise Violation("doubling absent bra functions gave something")
    elif fn == "one":
        xs = [np.eye(l * l)[i].reshape(l, l) for i in range(l * l)]
        for x in xs + [R.generic((l, l), c), 1e-14 * R.generic((l, l), c, 1),
                       1e14 * R.generic((l, l), c, 2),
                       R.generic((l, l), c, 3).astype(
                           np.complex64 if c else np.float32),
                       np.arange(l * l).reshape(l, l)]:
            chk(st, fn, BasisSet.add_spin_one_body(R.frozen(x), np),
                dbl_one(x), case)
    elif fn == "two":
        n = l ** 4
        xs = [np.eye(1, n, i).reshape((l,) * 4) for i in range(n)]
        for x in xs + [R.generic((l,) * 4, c), 1e-14 * R.generic((l,) * 4, c),
                       1e14 * R.generic((l,) * 4, c),
                       np.arange(n).reshape((l,) * 4)]:
            chk(st, fn, BasisSet.add_spin_two_body(R.frozen(x), np),
                dbl_two(x), case)
    else:
        f = BasisSet.add_spin_spf if fn == "spf" else BasisSet.add_spin_bra_spf
        for shp in ((1,), (4,), (2, 3), (3, 2, 4)):
            for sc in (1, 1e-14, 1e14):
                x = sc * R.generic((l,) + shp, c)
                chk(st, fn, f(R.frozen(x), np), dbl_f(x), case)
            chk(st, fn, f(np.ones((l,) + shp, dtype=int), np),
                np.ones((2 * l,) + shp), case)
    st.state(R.digest(repr(case)))
    return st


def lattice(it, k, c1=1, c2=1):
    th, ph = np.pi * it / 12, 2 * np.pi * k / 12
    return (c1 * np.array([np.cos(th), np.exp(1j * ph) * np.sin(th)]),
            c2 * np.array([-np.exp(-1j * ph) * np.sin(th), np.cos(th)]))


def spin_basis(sb):
    if isinstance(sb, list):
        return lattice(*sb, c1=1j, c2=np.exp(0.4j))
    return R.SPIN_BASES[sb] if sb in R.SPIN_BASES else R.SPIN_EXACT[sb]


def pauli_case(case):
    st = Stats()
    for k in range(12):
        for c1, c2 in itertools.product((1, 1j, -1, np.exp(0.4j)), repeat=2):
            a, b = lattice(case["pauli"], k, c1, c2)
            got = BasisSet.setup_pauli_matrices(
                R.frozen(a.reshape(-1, 1)), R.frozen(b.reshape(-1, 1)), np)
            want = R.pauli_in(a, b)
            for n, g, w in zip("xyz", got, want):
                st.step()
                if np.shape(g) != (2, 2) or np.max(np.abs(g - w)) > 1e-13:
                    raise Violation(
                        f"Pauli {n} in spin basis {a}, {b}: got {g}, "
                        f"expected {w}")
            st.state(R.digest(case["pauli"], k, c1, c2))
    return st


def convert(bs, case, a, b, as_):
    """Returns (basis set after conversion, system or None)."""
    kw = dict(anti_symmetrize=as_)
    if a is not None:
        kw.update(a=a, b=b)
    e = case["entry"]
    other = dict(a=[R.S2, R.S2], b=[R.S2, -R.S2], anti_symmetrize=False)
    if "other" in case:
        other = dict(anti_symmetrize=False)
        if case["other"] is not None:
            va, vb = spin_basis(case["other"])
            other.update(a=form(va, case["form"]), b=form(vb, case["form"]))
    if e.startswith("basis"):
        for i in range({"basis": 1, "basis_twice": 2, "basis_thrice": 3}[e]):
            r = bs.change_to_general_orbital_basis(**(kw if i == 0 else other))
            if r is not bs:
                raise Violation(f"{case}: conversion {i + 1} did not return "
                                f"the basis set but {r!r}")
        return bs, None
    if e == "gos":
        s = GeneralOrbitalSystem(2, bs, **kw)
        return R.basis_of(s), s
    if e == "gos_on_converted":
        bs.change_to_general_orbital_basis(**kw)
        s = GeneralOrbitalSystem(2, bs, **other)
        return R.basis_of(s), s
    if e == "gos_twice":
        s = GeneralOrbitalSystem(2, bs, **kw)
        s = GeneralOrbitalSystem(1, R.basis_of(s), **other)
        return R.basis_of(s), s
    if e == "construct":
        s = SpatialOrbitalSystem(2, bs)
        g = s.construct_general_orbital_system(**kw)
        if g.n != 2 or s.n != 1 or s.l != bs.l:
            raise Violation(f"{case}: particle number {g.n} or source changed")
        return R.basis_of(g), g
    raise KeyError(e)


def run_case(case):
    if "static" in case:
        return static_case(case)
    if "pauli" in case:
        return pauli_case(case)
    st = Stats()
    as_ = bool(case.get("as_", 0))
    if "cls" in case:
        bs = CLASSES[case["cls"]]()
        sb = case["sb"]
        frm = "list"
    else:
        if "size" in case:
            kw = dict(l=case["size"], dim=1, spf="ketbra", cplx=bool(case["cplx"]))
            sb, frm = "gen", "list"
        else:
            kw = GENERIC[case["fx"]]
            sb, frm = case["sb"], case["form"]
        bs = R.Fx(**kw).build(BasisSet)
    bs.nuclear_repulsion_energy = 0.625
    src = {n: getattr(bs, n) for n in
           ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "grid")}
    src = {k: None if v is None else np.array(v) for k, v in src.items()}
    l, dim = bs.l, bs.dim
    if sb is None:
        a = b = None
        sig = R.PAULI
    else:
        va, vb = spin_basis(sb)
        a, b = form(va, frm), form(vb, frm)
        sig = R.pauli_in(va, vb)
    nb, system = convert(bs, case, a, b, as_)
    where = str(case)
    if nb.l != 2 * l or nb.dim != dim or not nb.includes_spin or (
            system is not None and system.l != 2 * l):
        raise Violation(f"{where}: size {nb.l} from {l}, spin flag "
                        f"{nb.includes_spin}")
    if nb.nuclear_repulsion_energy != 0.625:
        raise Violation(f"{where}: nuclear repulsion energy changed")
    view = nb if system is None else system
    u = dbl_two(full4(src["u"]))
    if as_:
        u = u - u.transpose(0, 1, 3, 2)
    spins = [0.5 * np.einsum("ij,st->isjt", src["s"], m).reshape(2 * l, 2 * l)
             for m in sig]
    chk(st, "h", view.h, dbl_one(src["h"]), where)
    chk(st, "s", view.s, dbl_one(src["s"]), where)
    chk(st, "u", full4(view.u), u, where)
    chk(st, "dipole_moment", view.dipole_moment,
        None if src["dipole_moment"] is None else np.array(
            [dbl_one(d) for d in src["dipole_moment"]]), where)
    for n in ("spf", "bra_spf"):
        chk(st, n, getattr(view, n),
            None if src[n] is None else dbl_f(src[n]), where)
    chk(st, "grid", view.grid, src["grid"], where)
    if np.ndim(nb.u) == 4:
        for n, w in zip("xyz", spins):
            chk(st, "spin_" + n, getattr(nb, "spin_" + n), w, where, 1e-12)
        for n, w in zip("xyz", sig):
            chk(st, "sigma_" + n, getattr(nb, "sigma_" + n), w, where, 1e-12)
        chk(st, "spin_2", nb.spin_2, 0.75 * dbl_one(src["s"]), where, 1e-12)
    st.state(R.digest(repr(case)))
    return st
