"""C01: basis changes keep every stored quantity the same operator."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem

RULE = """
A case is (basis contents, operation history) or (static helper, sizes,
matrix-unit input).  All histories over the alphabet up to the depth bound are
executed on a fresh real object; after the last operation every observable is
compared with the from-scratch reference (each proper prefix is a case of its
own).  Non-trivial: the history contains at least one basis change.
"""
ASSUMPTIONS = [
    "element values outside the generic/matrix-unit alphabet: by "
    "multilinearity of the transformation",
]

FIX = {
    "c2": dict(l=2, dim=1, cplx=True, spf="ket"),
    "c2bra": dict(l=2, dim=2, cplx=True, spf="ketbra"),
    "r2": dict(l=2, dim=1, cplx=False, spf="ket", s="eye"),
    "c1": dict(l=1, dim=1, cplx=True, spf="ket"),
    "c3min": dict(l=3, dim=3, cplx=True, spf=None, dip=False),
    "tiny": dict(l=2, dim=1, cplx=True, spf="ket", scale=1e-11),
    "huge": dict(l=2, dim=1, cplx=True, spf="ketbra", scale=1e11),
    "grade": dict(l=4, dim=1, cplx=True, spf="ket", s="grade"),
    "nos": dict(l=2, dim=1, cplx=True, spf="ket", s=None),
    "big": dict(l=5, dim=1, cplx=True, spf="ket"),
    "spin": dict(l=4, dim=1, cplx=True, spf="ket", spin=True),
    "d5": dict(l=2, dim=5, cplx=True, spf="ketbra", grid=1),
}
STRUCT = {
    f"{sym}{'l' if lay is None else lay}": dict(
        l=2, dim=2, cplx=sym == "herm", spf="ketbra" if lay else "ket",
        sym=sym, lay=lay, s="eye" if sym in ("diag", "int") else "pos")
    for sym in ("herm", "real8", "diag", "zero", "int")
    for lay in (None, "f", "view")
}
CB = ["cb:U", "cb:N", "cb:X", "cb:S", "cb:G", "cb:R", "cb:B", "cb:P", "cb:SX",
      "cb:F", "cb:FT", "cb:I", "cb:D", "cb:H"]
# coefficients of which only one side is special
SIDED = ["cb:IX", "cb:XI", "cb:DX", "cb:XD", "cb:RX", "cb:XR", "cb:UX",
         "cb:UT", "cb:e", "cb:T", "cb:TX", "cb:TP", "cb:W", "cb:WX"]
# the caller's own coefficient arrays, refilled before every change
REUSED = ["cbm:C", "cbm:CC"]
OTHER = ["dbl:z:0", "dbl:gen:1", "as", "cast", "mod", "copy", "read"]
LP = (1, 2, 3, 4, 5, 7, 8)
WIDE = ("two", "sys_two", "get_u")
CORE = ["cb:U", "cb:X", "cb:SX", "cb:G", "cb:N", "dbl:gen:1", "dbl:z:0", "as",
        "copy", "cast"]


def bounds(tier):
    return dict(
        depth_full_alphabet=2 if tier == "quick" else 3,
        depth_core_alphabet=3 if tier == "quick" else 4,
        alphabet=CB + OTHER, one_sided=SIDED, reused_arrays=REUSED,
        core_alphabet=CORE,
        fixtures=FIX, structured_fixtures=STRUCT,
        size_sweep=sweep(tier),
        long="[op]*k to k=8 (16), [a,b]*k to k=3 (5)",
        static_sizes="l in 1..3, l' in 1..8, every matrix unit of C, C_tilde, h, u",
    )


def long_histories(tier):
    """Histories beyond the exhaustive depth: every operation repeated, and
    every alternation of two operations of the core alphabet."""
    for k in range(3, 9 if tier == "quick" else 17):
        for o in SIDED[:9] + ["cb:U", "cb:R", "cb:H", "cb:D", "cb:P", "cb:I", "cb:N",
                  "cb:X", "as", "cast", "mod", "copy", "read"]:
            yield [o] * k
    for a, b in itertools.permutations(CORE + ["mod", "read"], 2):
        for k in (2, 3) if tier == "quick" else (2, 3, 4, 5):
            yield [a, b] * k


def sweep(tier):
    return list(range(6, 17)) + ([] if tier == "quick" else [20, 24, 30])


def cases(tier):
    for kind in ("one", "two", "spf", "bra", "sys_one", "sys_two", "get_h",
                 "get_u"):
        for l in (1, 2, 3):
            for lp in LP if l < 3 or kind not in WIDE else LP[:5]:
                for real in (0, 1):
                    yield dict(static=kind, l=l, lp=lp, real=real)
    b = bounds(tier)
    for d in range(1, b["depth_full_alphabet"] + 1):
        for f in FIX:
            for wrap in ("basis", "system"):
                for hist in itertools.product(CB + OTHER, repeat=d):
                    yield dict(fx=f, wrap=wrap, hist=list(hist))
    for f in [*FIX, *STRUCT]:
        for wrap in ("basis", "system"):
            for o in SIDED:
                for h in ([o], [o, "cb:X"], ["cb:X", o], [o] * 3, [o, "read", o],
                          ["cb:S", o], ["dbl:gen:1", o], ["dbl:z:0", o],
                          [o, "dbl:gen:1", o]):
                    yield dict(fx=f, wrap=wrap, hist=h)
    for f in FIX:
        for wrap in ("basis", "system"):
            for d in (2, 3, 4):
                for h in itertools.product(
                        REUSED + ["copy", "cb:U", "dbl:gen:1", "read"],
                        repeat=d):
                    if sum(o in REUSED for o in h) > 1:
                        yield dict(fx=f, wrap=wrap, hist=list(h))
    for f in STRUCT:
        for wrap in ("basis", "system"):
            for d in (1, 2):
                for hist in itertools.product(CB + OTHER if d == 1 else
                                              CORE + ["cb:H", "cb:R", "mod"],
                                              repeat=d):
                    yield dict(fx=f, wrap=wrap, hist=list(hist))
    for l in sweep(tier):
        for hist in (["cb:U"], ["cb:X"], ["cb:SX"], ["cb:S", "cb:B"],
                     ["dbl:gen:1", "cb:X"], ["cb:N", "dbl:z:0", "cb:S"]):
            if hist[0] != "cb:U" and l > 16 and "dbl" in str(hist):
                continue
            for spin in (0, 1):
                yield dict(size=l, spin=spin, wrap="system", hist=hist)
    for f in ("c2bra", "spin", "hermf"):
        for hist in long_histories(tier):
            yield dict(fx=f, wrap="system", hist=hist)
    for f in ("c2", "c2bra", "c1", "c3min"):
        for wrap in ("basis", "system"):
            d = b["depth_core_alphabet"]
            for hist in itertools.product(CORE, repeat=d):
                yield dict(fx=f, wrap=wrap, hist=list(hist))


def static_case(case):
    st = Stats()
    l, lp = case["l"], case["lp"]
    c = not case["real"]
    C = R.generic((l, lp), c, "sC")
    Ct = R.generic((lp, l), c, "sCt")
    kind = case["static"]
    h = R.generic((l, l), c, "sh")
    u = R.generic((l,) * 4, c, "su")
    bs = R.Fx(l=l, cplx=c, spf=None).build(BasisSet)
    bs.h, bs.u = h.copy(), u.copy()
    if kind.startswith("sys"):
        sy = SpatialOrbitalSystem(0, bs)

    def one(h, C, Ct):
        return np.einsum("pa,ab,bq->pq", Ct, h, C)

    def two(u, C, Ct):
        return np.einsum("pa,qb,abcd,cr,ds->pqrs", Ct, Ct, u, C, C)

    def check(got, want, what):
        st.step()
        if not R.close(got, want, 1e-11):
            raise Violation(f"{kind} {what}: {R.describe('result', got, want)}")

    eh = np.eye(l * l).reshape(l * l, l, l)
    eu = np.eye(l ** 4).reshape(l ** 4, l, l, l, l)
    eC = [x.reshape(l, lp) for x in np.eye(l * lp)]
    for scale in (1.0, 1e-13, 1e13):
        if kind in ("one", "sys_one"):
            f = (lambda h, C, Ct: BasisSet.transform_one_body_elements(
                h, C, np=np, C_tilde=Ct)) if kind == "one" else (
                lambda h, C, Ct: sy.transform_one_body_elements(h, C, Ct))
            for hh in [h] + list(eh):
                check(f(scale * hh, C, Ct), scale * one(hh, C, Ct), "Ct")
                check(f(scale * hh, C, None), scale * one(hh, C, C.conj().T),
                      "implied")
        if kind in ("two", "sys_two"):
            f = (lambda u, C, Ct: BasisSet.transform_two_body_elements(
                u, C, np=np, C_tilde=Ct)) if kind == "two" else (
                lambda u, C, Ct: sy.transform_two_body_elements(u, C, Ct))
            for uu in [u] + list(eu):
                check(f(scale * uu, C, Ct), scale * two(uu, C, Ct), "Ct")
                check(f(scale * uu, C, None), scale * two(uu, C, C.conj().T),
                      "implied")
            for e in eC:
                check(f(scale * u, e, Ct), scale * two(u, e, Ct), "unit C")
                check(f(scale * u, C, e.T), scale * two(u, C, e.T), "unit Ct")
        if kind == "spf":
            for shp in ((4,), (2, 3), (2, 3, 2)):
                f = scale * R.generic((l,) + shp, c, "f")
                check(BasisSet.transform_spf(f, C, np),
                      np.einsum("ap,a...->p...", C, f), "spf")
        if kind == "bra":
            for shp in ((4,), (2, 3), (2, 3, 2)):
                f = scale * R.generic((l,) + shp, c, "f")
                check(BasisSet.transform_bra_spf(f, Ct, np),
                      np.einsum("pa,a...->p...", Ct, f), "bra")
        if kind == "get_h":
            check(bs.get_transformed_h(C), one(h, C, C.conj().T), "get_h")
        if kind == "get_u":
            check(bs.get_transformed_u(C), two(u, C, C.conj().T), "get_u")
    st.state(R.digest(repr(case)))
    return st


def apply(op, obj, ref, wrap, big=False):
    """Apply op to the real object (basis set or system) and the reference."""
    k = op.split(":")
    bs = obj if wrap == "basis" else R.basis_of(obj)
    if k[0] == "cb":
        C, Ct = R.coeff(k[1], ref.l)
        obj.change_basis(R.frozen(C), R.frozen(Ct)) if Ct is not None else (
            obj.change_basis(R.frozen(C)))
        ref.change_basis(C, Ct)
        if ref.l > 12 and not big:
            raise Infeasible
    elif k[0] == "cbm":
        bufs = ref.__dict__.setdefault("bufs", {})
        C, Ct, n = bufs.setdefault(ref.l, [
            np.zeros((ref.l,) * 2, complex), np.zeros((ref.l,) * 2, complex),
            0])
        bufs[ref.l][2] += 1
        C[...] = R.generic(C.shape, True, "m", n) + np.eye(ref.l)
        Ct[...] = R.generic(C.shape, True, "mt", n) + np.eye(ref.l)
        if k[1] == "C":
            obj.change_basis(C)
            ref.change_basis(C.copy())
        else:
            obj.change_basis(C, Ct)
            ref.change_basis(C.copy(), Ct.copy())
    elif k[0] == "dbl":
        if ref.s0 is None or ref.spin or (
                ref.l > 5 and not big):
            raise Infeasible
        a, b = R.SPIN_BASES[k[1]]
        as_ = k[2] == "1"
        if wrap == "basis":
            bs.change_to_general_orbital_basis(a=a, b=b, anti_symmetrize=as_)
        else:
            obj = obj.construct_general_orbital_system(
                a=a, b=b, anti_symmetrize=as_)
        ref.double(k[1], as_)
    elif k[0] == "as":
        if not ref.spin:
            raise Infeasible
        bs.anti_symmetrize_two_body_elements()
        ref.antisym()
    elif k[0] == "cast":
        bs.cast_to_complex()
    elif k[0] == "mod":
        obj.change_module(R.SHIM if bs.np is np else np)
    elif k[0] == "copy":
        obj = obj.copy_basis() if wrap == "basis" else obj.copy_system()
    elif k[0] == "read":
        R.read_obs(bs)
    else:
        raise KeyError(op)
    return obj


SYS_OBS = ("h", "u", "s", "dipole_moment", "spf", "bra_spf")


def run_case(case):
    if "static" in case:
        return static_case(case)
    st = Stats()
    st.nontrivial = any(o.startswith("cb") for o in case["hist"])
    big = "size" in case
    fx = R.Fx(l=case["size"], dim=1, spf="ket", spin=bool(case["spin"])) \
        if big else R.Fx(**{**FIX, **STRUCT}[case["fx"]])
    ref = R.Ref(fx)
    obj = fx.build(BasisSet)
    wrap = case["wrap"]
    if wrap == "system":
        if fx.spin:
            obj = GeneralOrbitalSystem(0, obj, anti_symmetrize=False)
        else:
            obj = SpatialOrbitalSystem(0, obj)
    for op in case["hist"]:
        obj = apply(op, obj, ref, wrap, big)
        st.step()
    where = f"{case.get('fx', case)}/{wrap} after {case['hist']}"
    bs = obj if wrap == "basis" else R.basis_of(obj)
    R.compare_basis(bs, ref, where)
    if wrap == "system":
        want = ref.obs()
        names = SYS_OBS + (
            ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb")
            if ref.spin and ref.spins0 is not None else ())
        R.compare_obs(R.read_obs(obj, names), want, where + " (system)", names,
                      floors=ref.floors())
        if obj.l != ref.l:
            raise Violation(f"{where}: system size {obj.l}, expected {ref.l}")
    # the non-mutating transforms agree with what a change would give
    st.state(R.state_key(ref))
    return st
