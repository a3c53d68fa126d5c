"""C10: particle density is the density-matrix contraction, in any basis."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (BasisSet, GeneralOrbitalSystem,
                             SpatialOrbitalSystem)
from quantum_systems.system_helper import compute_particle_density

RULE = """
A case is (size, grid shape, dtype of functions, bra kind, entry point,
coefficient kind) with every matrix-unit density matrix (the map is linear) and
generic real/complex/integer ones, or (contents, history) where the density in
the reached basis is compared with the density of the back-transformed density
matrix over the original functions.  Oracle: the double sum written as einsum
over reference functions.  Non-trivial: always.
"""
ASSUMPTIONS = ["ket and bra functions of the same dtype (the code insists)"]
GRIDS = [(1,), (5,), (2, 3), (3, 2, 2), (3, 1), (1, 4), (1, 1), (2, 1, 3),
         (1, 1, 5), (2, 2, 2, 2)]
CK = ["none", "U", "R", "N", "X", "B", "S", "SX", "G", "P", "I", "F"]
HOPS = ["cb:U", "cb:X", "cb:SX", "cb:G", "cb:N", "dbl", "copy", "read", "cast"]


def bounds(tier):
    q = tier == "quick"
    return dict(l="1..4", grids=GRIDS, coefficients=CK, depth=3 if q else 4,
                history_alphabet=HOPS, large=[
        (5, 64), (6, 129), (8, 41), (9, 257), (12, 101), (13, 1025), (16, 33),
        (17, 512), (20, 11), (6, (16, 17)), (7, (33, 9)), (10, (5, 6, 7)),
        (8, (65, 64)), (40, 37), (72, 19), (101, 9), (130, 7)])


def cases(tier):
    b = bounds(tier)
    for l in (1, 2, 3, 4):
        for g in range(len(GRIDS)):
            for cplx in (0, 1, 2):  # 2: integers
                for bra in (0, 1):
                    for entry in ("helper", "basis", "spatial", "gos"):
                        for ck in CK:
                            if entry == "helper" and ck != "none":
                                continue
                            yield dict(l=l, g=g, cplx=cplx, bra=bra,
                                       entry=entry, ck=ck)
    for d in range(1, b["depth"] + 1):
        for bra in ("ket", "ketbra"):
            for dim in (1, 2):
                for h in itertools.product(HOPS, repeat=d):
                    yield dict(hist=list(h), bra=bra, dim=dim)
    for l, n in b["large"]:
        for cplx in (0, 1):
            for ck in ("none", "U", "X", "S"):
                yield dict(large=l, grid=n, cplx=cplx, ck=ck)


def oracle(rho, ket, bra):
    return np.einsum("p...,qp,q...->...", bra, rho, ket)


def rhos(l, units=True):
    if units:
        for i in range(l * l):
            yield "unit%d" % i, np.eye(1, l * l, i).reshape(l, l)
        for i in range(l * l):
            yield "iunit%d" % i, 1j * np.eye(1, l * l, i).reshape(l, l)
    yield "real", R.generic((l, l), False, "rho")
    yield "complex", R.generic((l, l), True, "rho")
    yield "int", np.arange(1, l * l + 1).reshape(l, l)
    yield "f", np.asfortranarray(R.generic((l, l), True, "rho2"))
    g = R.generic((l, l), True, "rho5")
    yield "hermitian", g + g.conj().T
    yield "symmetric", g.real + g.real.T
    yield "antihermitian", g - g.conj().T
    yield "occupied", np.diag([1.0] * ((l + 1) // 2) + [0.0] * (l // 2))
    yield "identity", np.eye(l)
    v = R.unitary(l, True, "rho6")[:, : (l + 1) // 2]
    yield "projector", v @ v.conj().T
    yield "zero", np.zeros((l, l))
    yield "tiny", 1e-13 * R.generic((l, l), True, "rho7")
    m = 1e-8 * R.generic((l, l), True, "rho8")
    m[0, 0] = 1.0
    yield "mixed", m
    yield "big", 1e9 * R.generic((l, l), True, "rho3")
    yield "view", R.generic((2 * l, 2 * l), True, "rho4")[::2, 1::2]


def check(st, got, want, scale, where):
    st.step()
    if np.shape(got) != np.shape(want) or not R.close(got, want, 1e-12, scale):
        raise Violation(f"{where}: {R.describe('density', got, want)}")


def run_case(case):
    st = Stats()
    where = str(case)
    st.state(R.digest(where))
    if "hist" in case:
        return history(case, st, where)
    if "large" in case:
        l, shp, cplx, bra = case["large"], case["grid"], case["cplx"], 0
        shp = tuple(shp) if isinstance(shp, (list, tuple)) else (shp,)
        entry, ck = "basis", case["ck"]
    else:
        l, shp, cplx, bra = (case["l"], GRIDS[case["g"]], case["cplx"],
                             case["bra"])
        entry, ck = case["entry"], case["ck"]
    def functions(tag):
        if cplx == 2:
            return np.rint(7 * R.generic((l,) + shp, False, tag)).astype(int)
        return R.generic((l,) + shp, bool(cplx), tag)

    ket = functions("ket")
    br = functions("bra") if bra else ket.conj()
    if entry == "helper":
        for n, rho in rhos(l):
            got = compute_particle_density(
                R.frozen(rho), R.frozen(ket), R.frozen(br), np)
            check(st, got, oracle(rho, ket, br),
                  np.max(np.abs(rho)) * l * l + 1e-300, f"{where} {n}")
        return st
    bs = BasisSet(l, len(shp))
    bs.h, bs.s, bs.u = np.eye(l), np.eye(l), np.zeros((l,) * 4)
    bs.spf = R.frozen(ket)
    if bra:
        bs.bra_spf = R.frozen(br)
    o = bs
    k2, b2 = ket, br
    if entry == "spatial":
        o = SpatialOrbitalSystem(0, bs)
    elif entry == "gos":
        o = GeneralOrbitalSystem(0, bs)
        k2, b2 = np.repeat(ket, 2, axis=0), np.repeat(br, 2, axis=0)
    L = len(k2)
    args = ()
    if ck != "none":
        C, Ct = R.coeff(ck, L)
        if cplx != 1 and entry != "gos" and Ct is not None and (
                np.iscomplexobj(C) != np.iscomplexobj(Ct)):
            raise Infeasible
        args = (R.frozen(C),) if Ct is None else (R.frozen(C), R.frozen(Ct))
        Ct = C.conj().T if Ct is None else Ct
        k2 = np.einsum("ap,a...->p...", C, k2)
        b2 = np.einsum("pa,a...->p...", Ct, b2)
        L = len(k2)
    for n, rho in rhos(L, L <= 4):
        got = o.compute_particle_density(R.frozen(rho), *args)
        sc = np.max(np.abs(rho)) * np.max(np.abs(k2)) * np.max(
            np.abs(b2)) * L * L + 1e-300
        check(st, got, oracle(rho, k2, b2), sc, f"{where} {n}")
        if ck != "none":
            # same density from the back-transformed density matrix
            back = C @ rho @ Ct
            got2 = o.compute_particle_density(back)
            check(st, got2, oracle(rho, k2, b2),
                  sc + np.max(np.abs(back)) * L * L, f"{where} {n} back")
    return st


def history(case, st, where):
    fx = R.Fx(l=2, dim=case["dim"], spf=case["bra"])
    ref = R.Ref(fx)
    bs = fx.build(BasisSet)
    for op in case["hist"]:
        st.step()
        if op.startswith("cb"):
            if ref.l > 6:
                raise Infeasible
            C, Ct = R.coeff(op[3:], ref.l)
            bs.change_basis(C, Ct)
            ref.change_basis(C, Ct)
        elif op == "dbl":
            if ref.spin or ref.l > 4:
                raise Infeasible
            bs.change_to_general_orbital_basis()
            ref.double("z", True)
        elif op == "copy":
            bs = bs.copy_basis()
        elif op == "read":
            bs.bra_spf, bs.spf
        elif op == "cast":
            bs.cast_to_complex()
    l = ref.l
    for n, rho in (("generic", R.generic((l, l), True, "hr")),
                   ("real", R.generic((l, l), False, "hr")),
                   ("hermitian", R.generic((l, l), True, "hr") + R.generic(
                       (l, l), True, "hr").conj().T)):
        # original functions, density matrix pushed back by all changes
        back = ref.K @ rho @ ref.B
        want = oracle(back, ref.spf0, ref.bra0)
        sc = np.max(np.abs(back)) * len(back) ** 2 + np.sum(
            np.abs(ref.K)) * np.sum(np.abs(ref.B)) * 1.0
        check(st, bs.compute_particle_density(rho), want, sc, f"{where} {n}")
    return st
