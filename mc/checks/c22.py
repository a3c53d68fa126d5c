"""C22: queries are pure and caller-owned arrays are never modified."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from mc.checks import c06
from mc.checks.c06 import basis_of, compare, observe
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, ODQD, ODSincDVR, RandomBasisSet,
    SpatialOrbitalSystem)
from quantum_systems.time_evolution_operators import (
    AdiabaticSwitching, CustomOneBodyOperator, LaserField)

RULE = """
A case is (a) (contents, container, time-evolution operator, history of
changes, queries inserted at chosen positions): the final observables must
equal those of a control object that saw the same changes and no query, and
each query must give the result it gives on an object that saw no other query;
or (b) (layout of the caller's arrays, history of operations that receive
arrays): after every operation every array the caller ever passed must hold
its original bytes; run with writable and with read-only arrays.  All
histories and insertions up to the bounds are executed.  Non-trivial: at least
one query, or one array passed.
"""
ASSUMPTIONS = []
CHUNK = 16

KINDS = {
    "plain": lambda: R.Fx(l=2, dim=2, spf="ketbra").build(BasisSet),
    "ket": lambda: R.Fx(l=2, dim=1, spf="ket").build(BasisSet),
    "real": lambda: R.Fx(l=2, dim=1, spf="ket", cplx=False, s="eye").build(
        BasisSet),
    "min": lambda: R.Fx(l=2, dim=1, spf=None, dip=False).build(BasisSet),
    "spin": lambda: R.Fx(l=3, dim=1, spf="ket", spin=True).build(BasisSet),
    "shim": lambda: R.Fx(l=2, dim=1).build(BasisSet, R.SHIM),
    "odqd": lambda: ODQD(3, 3, 9),
    "sinc2": lambda: ODSincDVR(3, 2),
    "sinc4": lambda: ODSincDVR(3, 2, u_repr="4d"),
    "random": c06.rnd,
    "herm": lambda: R.Fx(l=3, dim=1, spf="ketbra", sym="herm").build(BasisSet),
    "int": lambda: R.Fx(l=2, dim=2, spf="ket", sym="int").build(BasisSet),
    "big": lambda: R.Fx(l=6, dim=1, spf="ket").build(BasisSet),
    "view": lambda: R.Fx(l=2, dim=1, spf="ketbra", lay="view").build(BasisSet),
}
QUERIES = ["read", "bra", "E", "F", "Fbuf", "Fother", "dens", "densC",
           "densCt", "densQ", "th", "tu", "tob", "ttb", "static", "ht", "ut", "htwice",
           "sizes", "copy", "con", "has", "pot"]
OPS = ["cb:U", "cb:X", "cb:S", "dbl:1", "as", "cast", "mod", "set:h",
       "set:spf", "setbra", "setdip", "w:spf", "w:h", "teo:laser", "teo:cust",
       "teo:adia"]


def query(o, q):
    """Run a query; return its result as plain arrays."""
    bs = basis_of(o)
    issys = o is not bs
    l = bs.l
    if q == "read":
        return {n: None if getattr(bs, n, None) is None else np.array(
            getattr(bs, n)) for n in c06.ARR}
    if q == "bra":
        return None if bs.bra_spf is None else np.array(bs.bra_spf)
    if q in ("th", "tu", "tob", "ttb", "static", "densC", "densCt", "densQ"):
        C, Ct = R.coeff("X", l)
        if q != "densQ":  # fewer functions; densQ: as many as before
            C, Ct = C[:, :max(1, l - 1)], Ct[:max(1, l - 1)]
    if q == "th":
        return np.array(bs.get_transformed_h(C))
    if q == "tu":
        return np.array(bs.get_transformed_u(C))
    if q == "static":
        return [np.array(x) for x in (
            bs.transform_one_body_elements(bs.h, C, np=bs.np, C_tilde=Ct),
            bs.add_spin_one_body(bs.h, bs.np),
            bs.add_spin_two_body(bs.u, bs.np),
            bs.anti_symmetrize_u(bs.u))]
    if q in ("dens", "densC", "densCt", "densQ"):
        # bra and ket functions of different type are not supported
        if bs.spf is None or bs.spf.dtype != bs.bra_spf.dtype:
            raise Infeasible
        n = l if q == "dens" else C.shape[1]
        rho = R.generic((n, n), True, "rho")
        kw = {} if q == "dens" else dict(C=C) if q in ("densC", "densQ") else dict(
            C=C, C_tilde=Ct)
        return np.array(o.compute_particle_density(rho, **kw))
    if q == "copy":
        c = o.copy_system() if issys else o.copy_basis()
        return np.array(basis_of(c).h)
    if q == "pot":
        if getattr(bs, "potential", None) is None:
            raise Infeasible
        x = np.linspace(-1, 1, 5)
        return [np.array(bs.potential(x)), np.array(bs.potential.derivative(x))]
    if not issys:
        raise Infeasible
    if q == "sizes":
        return [o.n, o.l, o.m, o.o, o.v]
    if q == "has":
        return [o.has_one_body_time_evolution_operator,
                o.has_two_body_time_evolution_operator]
    if q == "tob":
        return np.array(o.transform_one_body_elements(o.h, C, Ct))
    if q == "ttb":
        return np.array(o.transform_two_body_elements(o.u, C, Ct))
    if q in ("ht", "ut", "htwice"):
        try:
            if q == "ht":
                return [np.array(o.h_t(t)) for t in (0.3, 0.0)]
            if q == "ut":
                return [np.array(o.u_t(t)) for t in (0.3, 0.0)]
            return [np.array(o.h_t(0.9)), np.array(o.u_t(0.1)),
                    np.array(o.h_t(0.9))]
        except ValueError:
            raise Infeasible  # custom operator of another size
    if q == "con":
        if bs.includes_spin:
            raise Infeasible
        return np.array(o.construct_general_orbital_system().h)
    if np.ndim(o.u) != 4:
        raise Infeasible
    if q == "E":
        return np.array(o.compute_reference_energy())
    if q == "F":
        return np.array(o.construct_fock_matrix(o.h, o.u))
    if q == "Fbuf":
        f = np.full((l, l), 7.0 + 1j)
        return np.array(o.construct_fock_matrix(o.h, o.u, f))
    if q == "Fother":
        return np.array(o.construct_fock_matrix(
            R.generic((l, l), True, "fh"), R.generic((l,) * 4, True, "fu")))
    raise KeyError(q)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and \
            R.close(a, b, 1e-12)
    return a == b


def change(o, op):
    bs = basis_of(o)
    if op == "setbra":
        if bs.spf is None:
            raise Infeasible
        bs.bra_spf = R.generic(bs.spf.shape, True, "newbra")
    elif op == "setdip":
        bs.dipole_moment = R.generic((bs.dim, bs.l, bs.l), True, "newdip")
    else:
        c06.do(o, op)


def build(case):
    bs = KINDS[case["kind"]]()
    bs.nuclear_repulsion_energy = 0.3
    c = case["cont"]
    if c == "basis":
        return bs
    if c == "spatial":
        if bs.includes_spin:
            raise Infeasible
        sy = SpatialOrbitalSystem(2, bs)
    else:
        sy = GeneralOrbitalSystem(1, bs, anti_symmetrize=c == "gos1")
    t = case.get("teo", "none")
    if t != "none":
        if t.startswith("laser") and sy.dipole_moment is None:
            raise Infeasible
        sy.set_time_evolution_operator(c06.make_teo(t, sy.l, bs.dim))
    return sy


# ------------------------------------------------------------ caller arrays
def noisy(a):
    """Elements that are zero up to rounding, and negative zeros."""
    a = np.array(a)
    if a.ndim == 1:  # keep the norm
        a[a == 0] = 1e-15
        return a
    k = np.arange(a.size).reshape(a.shape) % 5
    a[k == 1] = 1e-15
    a[k == 2] = -0.0
    if a.dtype.kind == "c":
        a.imag[k == 3] = -1e-17
        a.real[k == 4] = 1e-16
    return a


def nearly(a):
    """Symmetric up to rounding."""
    a = np.array(a)
    if a.ndim == 2 and a.shape[0] == a.shape[1]:
        a = (a + a.conj().T) / 2
    elif a.ndim == 4 and len(set(a.shape)) == 1:
        a = (a + a.transpose(1, 0, 3, 2)) / 2
        a = (a + a.conj().transpose(2, 3, 0, 1)) / 2
    elif a.ndim == 3 and a.shape[1] == a.shape[2]:
        a = (a + a.conj().transpose(0, 2, 1)) / 2
    k = np.arange(a.size).reshape(a.shape) % 3
    return a * (1 + 2e-15 * k)


LAYOUT = {
    "noise": noisy,
    "near": nearly,
    "c": lambda a: np.ascontiguousarray(a),
    "f": lambda a: np.asfortranarray(a),
    "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2],
    "real": lambda a: np.ascontiguousarray(a.real),
}
B_OPS = ["cb:U", "cb:X", "cb:S", "cb:P", "dbl:0", "dbl:1", "gos:0", "gos:1",
         "sos", "con", "as", "cast", "mod", "copy", "dens", "fock", "fbuf",
         "teo:laser", "teo:cust", "ht", "static", "read", "rnd"]
B_CORE = ["cb:U", "cb:X", "dbl:1", "gos:1", "sos", "as", "cast", "mod", "dens",
          "fock", "teo:laser", "ht", "static"]


class Keeper:
    """Arrays the caller owns, with their original contents."""

    def __init__(self, layout, frozen):
        self.lay = LAYOUT[layout]
        self.frozen = frozen
        self.held = []

    def __call__(self, a, name):
        a = self.lay(np.array(a))
        if a.base is not None and self.frozen:
            a.base.flags.writeable = False
        if self.frozen:
            a.flags.writeable = False
        self.held.append((name, a, a.copy()))
        return a

    def check(self, where):
        for name, a, orig in self.held:
            if a.shape != orig.shape or a.tobytes() != orig.tobytes():
                raise Violation(f"{where}: the caller's {name} was modified: "
                                f"{R.describe(name, a, orig)}")


def b_build(case, keep):
    fx = R.Fx(l=3 if case["spin"] else 2, dim=2, spf="ketbra",
              grid=case.get("grid", 3))
    b = BasisSet(fx.l, fx.dim, includes_spin=bool(case["spin"]))
    b.h = keep(fx.h, "h")
    b.s = keep(fx.s, "s")
    b.u = keep(fx.u, "u")
    b.dipole_moment = keep(fx.dip, "dipole moment")
    b.spf = keep(fx.spf, "functions")
    b.bra_spf = keep(fx.bra, "bra functions")
    if case["spin"]:
        for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
            setattr(b, n, keep(R.generic((3, 3), True, n), n))
        b.spin_2_tb = keep(R.generic((3,) * 4, True, "tb"), "spin_2_tb")
    return b


def b_do(o, op, keep):
    bs = basis_of(o)
    issys = o is not bs
    k = op.split(":")
    l = bs.l
    if l > 8:
        raise Infeasible
    if k[0] == "cb":
        C, Ct = R.coeff(k[1], l)
        if issys and C.shape[1] < o.n:
            raise Infeasible
        C = keep(C, "C")
        if Ct is None:
            o.change_basis(C)
        else:
            o.change_basis(C, keep(Ct, "C_tilde"))
    elif k[0] in ("dbl", "gos", "con"):
        if k[0] == "dbl" and issys or k[0] == "gos" and issys or \
                k[0] == "con" and (not issys or bs.includes_spin):
            raise Infeasible
        if k[0] != "gos" and bs.includes_spin or (not bs.includes_spin
                                                  and l > 4):
            raise Infeasible
        a, b = R.SPIN_BASES["x" if keep.lay is LAYOUT["real"] else
                            "z" if keep.lay is noisy else "gen"]
        kw = dict(a=keep(a, "spin function a"), b=keep(b, "spin function b"),
                  anti_symmetrize=k[-1] != "0")
        if k[0] == "dbl":
            bs.change_to_general_orbital_basis(**kw)
        elif k[0] == "gos":
            return GeneralOrbitalSystem(1, bs, **kw)
        else:
            return o.construct_general_orbital_system(**kw)
    elif k[0] == "sos":
        if issys or bs.includes_spin:
            raise Infeasible
        return SpatialOrbitalSystem(2, bs)
    elif k[0] == "as":
        if not bs.includes_spin:
            raise Infeasible
        bs.anti_symmetrize_two_body_elements()
    elif k[0] == "cast":
        bs.cast_to_complex()
    elif k[0] == "mod":
        o.change_module(R.SHIM if bs.np is np else np)
    elif k[0] == "copy":
        return o.copy_system() if issys else o.copy_basis()
    elif k[0] == "dens":
        # bra and ket functions of different type are not supported
        if bs.spf.dtype != bs.bra_spf.dtype:
            raise Infeasible
        rho = keep(R.generic((l, l), True, "rho"), "density matrix")
        o.compute_particle_density(rho)
        C, Ct = R.coeff("X", l)
        o.compute_particle_density(rho, C=keep(C, "C"))
        o.compute_particle_density(rho, C=keep(C, "C"),
                                   C_tilde=keep(Ct, "C_tilde"))
    elif k[0] in ("fock", "fbuf"):
        if not issys:
            raise Infeasible
        h = keep(R.generic((l, l), True, "fh"), "h passed to Fock")
        u = keep(R.generic((l,) * 4, True, "fu"), "u passed to Fock")
        if k[0] == "fock":
            o.construct_fock_matrix(h, u)
            o.construct_fock_matrix(o.h, o.u)
        else:
            f = np.full((l, l), 3.0 + 0j)
            o.construct_fock_matrix(h, u, f)
            o.construct_fock_matrix(h, u, f=f)
    elif k[0] == "teo":
        if not issys:
            raise Infeasible
        if k[1] == "laser":
            t = LaserField(lambda t: 0.4 * t, keep(
                R.generic((2,), False, "pol"), "polarisation"))
        else:
            t = CustomOneBodyOperator(0.6, keep(
                R.generic((l, l), True, "op"), "operator"))
        o.set_time_evolution_operator(t)
    elif k[0] == "ht":
        if not issys:
            raise Infeasible
        try:
            o.h_t(0.3), o.u_t(0.3), o.h_t(0.1)
        except ValueError:
            raise Infeasible
        o.compute_reference_energy()
    elif k[0] == "static":
        B = BasisSet
        h = keep(R.generic((l, l), True, "sh"), "h")
        u = keep(R.generic((l,) * 4, True, "su"), "u")
        C, Ct = R.coeff("X", l)
        C, Ct = keep(C, "C"), keep(Ct, "C_tilde")
        f = keep(R.generic((l, 2, 3), True, "sf"), "spf")
        B.transform_one_body_elements(h, C, np, Ct)
        B.transform_one_body_elements(h, C, np)
        B.transform_two_body_elements(u, C, np, Ct)
        B.transform_two_body_elements(u, C, np)
        B.transform_spf(f, C, np)
        B.transform_bra_spf(f, Ct, np)
        B.add_spin_spf(f, np)
        B.add_spin_bra_spf(f, np)
        B.add_spin_one_body(h, np)
        B.add_spin_two_body(u, np)
        B.anti_symmetrize_u(u)
        B.change_arr_module(h, R.SHIM)
        B.check_axis_lengths(h, l)
        a, b = R.SPIN_BASES["z"]
        a = keep(np.array(a, complex).reshape(2, 1), "a")
        b = keep(np.array(b, complex).reshape(2, 1), "b")
        B.setup_pauli_matrices(a, b, np)
        x, y, z = (keep(R.generic((l, l), True, n), n) for n in "xyz")
        B.setup_spin_squared_operator(x, y, z, h, np)
        bs.get_transformed_h(C)
        bs.get_transformed_u(C)
        if issys:
            o.transform_one_body_elements(h, C, Ct)
            o.transform_two_body_elements(u, C, Ct)
    elif k[0] == "read":
        R.read_obs(bs)
        bs.bra_spf
    elif k[0] == "rnd":
        h = keep(R.generic((l, l), True, "rh"), "h")
        RandomBasisSet.make_hermitian(h)
        RandomBasisSet.make_two_body_symmetry(keep(
            R.generic((l,) * 4, True, "ru"), "u"))
        RandomBasisSet.make_dipole_moment_hermitian(keep(
            R.generic((2, l, l), True, "rd"), "dipole"))
    return o


# ------------------------------------------------------------ cases
def bounds(tier):
    q = tier == "quick"
    return dict(query_history_depth=2, pairs_of_queries="depth <= 1",
                kinds=list(KINDS), changes=OPS, queries=QUERIES,
                caller_depth_full=2 if q else 3,
                caller_depth_core=3 if q else 4, caller_operations=B_OPS,
                layouts=sorted(LAYOUT))


CONT = ("basis", "spatial", "gos0", "gos1")


def setup(tier):
    for k in KINDS:
        KINDS[k]()


def cases(tier):
    quick = tier == "quick"
    # every query at every position of every history
    for k in KINDS:
        for c in CONT:
            for teo in ("none", "laser", "custc", "adia"):
                if c == "basis" and teo != "none":
                    continue
                ins = [[q] for q in QUERIES] + [["*"], ["*", "*"]]
                for q in ins:
                    yield dict(kind=k, cont=c, teo=teo, hist=[], q=[[0, q]])
                if teo != "none" and k not in ("ket", "plain"):
                    continue
                for op in OPS:
                    for q in [[q] for q in QUERIES] + [["*"]]:
                        for pos in (0, 1):
                            if pos and quick and q != ["*"]:
                                continue
                            yield dict(kind=k, cont=c, teo=teo, hist=[op],
                                       q=[[pos, q]])
    for k in ("ket", "sinc2") if quick else ("ket", "plain", "real", "sinc2"):
        for c in ("basis", "spatial", "gos1"):
            for pair in itertools.permutations(QUERIES, 2):
                yield dict(kind=k, cont=c, teo="none" if c == "basis" else
                           "laserv" if c == "spatial" else "adia",
                           hist=[], q=[[0, list(pair)]])
    qs = [["*"], ["bra"], ["F"], ["dens"], ["ht"]]
    for k in ("ket", "real") if quick else ("ket", "real", "plain", "min",
                                            "spin", "odqd"):
        for c in CONT:
            for h in itertools.product(OPS, repeat=2):
                for q in qs if not quick or k == "ket" else []:
                    for pos in (0, 1, 2) if not quick or q == ["*"] else (1,):
                        yield dict(kind=k, cont=c, teo="none", hist=list(h),
                                   q=[[pos, q]])
                yield dict(kind=k, cont=c, teo="none", hist=list(h),
                           q=[[0, ["*"]], [1, ["*"]], [2, ["*"]]])
    if not quick:
        for c in CONT:
            for h in itertools.product(OPS, repeat=3):
                yield dict(kind="ket", cont=c, teo="none", hist=list(h),
                           q=[[0, ["*"]], [1, ["*"]], [2, ["*"]], [3, ["*"]]])
    # caller-owned arrays
    b = bounds(tier)
    for lay in LAYOUT:
        for frozen in (0, 1):
            for spin in (0, 1):
                for d in range(1, b["caller_depth_full"] + 1):
                    for h in itertools.product(B_OPS, repeat=d):
                        if d == 3 and lay != "c":
                            continue
                        yield dict(lay=lay, frozen=frozen, spin=spin,
                                   ops=list(h))
    for lay in LAYOUT:  # fine grids
        for spin in (0, 1):
            for h in (["dens"], ["static"], ["read", "cb:U", "dens"],
                      ["cb:X", "gos:1", "dens"], ["cast", "mod", "copy",
                                                  "dens"]):
                for grid in (16, 35):
                    yield dict(lay=lay, frozen=0, spin=spin, ops=h, grid=grid)
    for h in itertools.product(B_CORE, repeat=b["caller_depth_core"]):
        yield dict(lay="c", frozen=0, spin=0, ops=list(h))


def run_case(case):
    st = Stats()
    if "ops" in case:
        keep = Keeper(case["lay"], case["frozen"])
        o = b_build(case, keep)
        for i, op in enumerate(case["ops"]):
            o = b_do(o, op, keep)
            st.step()
            keep.check(f"{case} after {case['ops'][:i + 1]}")
        st.state(R.digest(case["lay"], case["spin"],
                          *[x[2].tobytes() for x in keep.held]))
        return st
    where = str(case)
    ins = {p: q for p, q in case["q"]}

    def run(upto, with_queries):
        o = build(case)
        for i in range(upto + 1):
            if with_queries and i in ins and i < upto:
                for q in ins[i]:
                    ask(o, q)
            if i < upto:
                change(o, case["hist"][i])
        return o

    def ask(o, q):
        if q == "*":
            out = []
            for x in QUERIES:
                try:
                    out.append(query(o, x))
                    st.step()
                except Infeasible:
                    pass
            return out
        st.step()
        return query(o, q)

    n = len(case["hist"])
    # queries give what they give on an object that saw no other query
    o = build(case)
    for i in range(n + 1):
        for j, q in enumerate(ins.get(i, [])):
            got = ask(o, q)
            if q == "*":
                again = ask(o, q)
                if not same(got, again):
                    raise Violation(f"{where}: a repeated round of queries "
                                    "gives other results")
            elif j or i:
                want = ask(run(i, False), q)
                if not same(got, want):
                    raise Violation(f"{where}: {q} gives {got!r}, alone "
                                    f"{want!r}")
        if i < n:
            change(o, case["hist"][i])
            st.step()
    compare(observe(o), observe(run(n, False)), where)
    st.state(R.digest(repr(case)))
    return st
