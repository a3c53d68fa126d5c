"""C08: a refused operation leaves basis set and system exactly as they were."""
import itertools

import numpy as np

from mc.core import Infeasible, Stats, Violation, frames_in_repo
from mc import ref as R
from mc.checks import c06
from mc.checks.c06 import observe, compare, basis_of, do
from quantum_systems import (
    BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, ODQD, ODSincDVR)
from quantum_systems.time_evolution_operators import LaserField

RULE = """
A case is (contents and container, history before, refused call(s), history
after).  Every refusable call is made at every position of every history up to
the depth bounds.  It must raise; every observable must be unchanged; and after
the remaining operations every observable must equal that of a control object
on which the refused call was never made.  Non-trivial: the call was refused.
"""
ASSUMPTIONS = ["failures of the machine itself (memory exhaustion) inside an "
               "accepted operation are outside the property"]

OPERATOR = ("plain", "ket", "sinc4")  # also with a time-evolution operator
KINDS = {
    "plain": lambda: R.Fx(l=3, dim=2, spf="ketbra").build(BasisSet),
    "ket": lambda: R.Fx(l=2, dim=1, spf="ket", cplx=False).build(BasisSet),
    "min": lambda: R.Fx(l=2, dim=1, spf=None, dip=False).build(BasisSet),
    "spin": lambda: R.Fx(l=3, dim=1, spf="ket", spin=True).build(BasisSet),
    "nos": lambda: R.Fx(l=2, dim=1, s=None).build(BasisSet),
    "noh": lambda: partial("h"),
    "nou": lambda: partial("u"),
    "spnou": lambda: partial("u", True),
    "spnoh": lambda: partial("h", True),
    "spnos": lambda: partial("s", True),
    "sinc2": lambda: ODSincDVR(3, 2),
    "sinc4": lambda: ODSincDVR(3, 2, u_repr="4d"),
    "odqd": lambda: ODQD(2, 3, 9),
}


def partial(missing, spin=False):
    fx = R.Fx(l=2, dim=1)
    b = BasisSet(2, 1, includes_spin=spin)
    for n in ("h", "s", "u"):
        if n != missing:
            setattr(b, n, getattr(fx, n).copy())
    b.spf = fx.spf.copy()
    b.dipole_moment = fx.dip.copy()
    return b


class Uncopyable:
    def __deepcopy__(self, memo):
        raise RuntimeError("cannot be copied")

    __copy__ = __reduce_ex__ = __deepcopy__


BADSPIN = {
    "norm": ([2, 0], [0, 1]),
    "norm2": ([1, 0], [0, 2]),
    "nonorth": ([1, 0], [1, 0]),
    "nonorth2": ([R.S2, R.S2], [1, 0]),
    "zero": ([0, 0], [0, 1]),
    "three": ([1, 0, 0], [0, 1, 0]),
    "one": ([1], [1]),
    "mixed": ([1, 0], [0, 1, 0]),
    "conj": ([R.S2, 1j * R.S2], [R.S2, 1j * R.S2]),
    "imag": ([1, 1j], [1, -1j]),
}
BADC = ["rows+", "rows-", "rows0", "1d", "3d", "ct+", "ct-", "ctT", "ct1d",
        "ctsq", "few", "rect_ct"]
SET = ["h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y",
       "spin_z", "spin_2", "spin_2_tb", "dip+", "dip-", "dip1", "diprow",
       "spfdim", "bradim", "spf-", "bra-"]
BAD = (["cb:" + b for b in BADC] + ["dbl:" + b for b in BADSPIN]
       + ["dbl1:" + b for b in ("norm", "nonorth", "three")]
       + ["set:" + n for n in SET]
       + ["gos:toomany", "gos:norm", "gos:nonorth", "gos:three", "sp:odd",
          "sp:toomany", "con:norm", "con:nonorth", "con:three", "copy",
          "size", "repr:lossy", "repr:bogus", "dbl:good", "gos:good",
          "cb:good", "as", "gos:good0", "gos:neg", "sp:neg", "size:neg"]
       + ["spinset:" + n for n in (
           "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb", "sigma_x",
           "sigma_y", "sigma_z")])


def bad(o, call):
    """Make the call, which has to be refused; Infeasible when, in this state,
    it need not be."""
    bs = basis_of(o)
    issys = o is not bs
    l = bs.l
    k, v = (call.split(":") + [None])[:2]
    incomplete = bs.h is None or bs.u is None
    if k == "cb":
        g = R.generic
        n = o.n if issys else 0
        Ct = None
        if v == "rows+":
            C = g((l + 1, l), True, 1)
        elif v == "rows-":
            C = g((l - 1, l), True, 1)
        elif v == "rows0":
            C = np.zeros((0, l))
        elif v == "1d":
            C = g((l,), True, 1)
        elif v == "3d":
            C = g((l, l, l), True, 1)
        elif v == "ct+":
            C, Ct = g((l, l), True, 1), g((l, l + 1), True, 2)
        elif v == "ct-":
            C, Ct = g((l, l), True, 1), g((l - 1, l), True, 2)
        elif v == "ctT":
            C, Ct = g((l, l + 1), True, 1), g((l, l + 1), True, 2)
        elif v == "ct1d":
            C, Ct = g((l, l), True, 1), g((l,), True, 2)
        elif v == "ctsq":
            C, Ct = g((l, l + 1), True, 1), g((l, l), True, 2)
        elif v == "rect_ct":
            C, Ct = g((l, l + 1), True, 1), g((l + 2, l), True, 2)
        elif v == "few":
            if n == 0:
                raise Infeasible
            C = g((l, n - 1), True, 1)
        elif v == "good":
            if not incomplete:
                raise Infeasible
            C = g((l, l + 1), True, 1)
        o.change_basis(C, Ct)
    elif k in ("dbl", "dbl1"):
        if bs.includes_spin:
            raise Infeasible
        if v == "good":
            if not incomplete and bs.s is not None:
                raise Infeasible
            bs.change_to_general_orbital_basis()
        else:
            a, b = BADSPIN[v]
            bs.change_to_general_orbital_basis(
                a=a, b=b, anti_symmetrize=k == "dbl1")
    elif k == "set":
        if v == "dipole_moment":
            x = np.ones((bs.dim, l + 1, l + 1))
        elif v.startswith("dip"):
            x = [np.full((l, l), 2.0 + i) for i in range(bs.dim)]
            if v == "dip+":
                x = x + x[:1]
            elif v == "dip-":
                x = x[1:]
            elif v == "dip1":  # only the last component does not fit
                x[-1] = np.ones((l, l + 1))
            else:
                x[-1] = np.ones((l + 1, l))
            if v in ("dip+", "dip-"):
                x = np.array(x)
            v = "dipole_moment"
        elif v in ("spfdim", "bradim"):
            x = np.ones((l,) + (2,) * (bs.dim + 1))
            v = {"spfdim": "spf", "bradim": "bra_spf"}[v]
        elif v in ("spf-", "bra-"):
            x = np.ones((l - 1,) + (2,) * bs.dim)
            v = {"spf-": "spf", "bra-": "bra_spf"}[v]
        elif v in ("spf", "bra_spf"):
            x = np.ones((l + 1,) + (2,) * bs.dim)
        elif v in ("u", "spin_2_tb"):
            x = np.ones((l, l, l, l + 1))
        else:
            x = np.ones((l + 1, l))
        setattr(bs, v, x)
    elif k == "spinset":
        if bs.includes_spin:
            raise Infeasible
        setattr(bs, v, np.ones((2, 2) if v.startswith("sigma") else (l,) * (
            4 if v == "spin_2_tb" else 2)))
    elif k == "as":
        if bs.u is not None:
            raise Infeasible
        bs.anti_symmetrize_two_body_elements()
        raise Infeasible  # not refused
    elif k == "gos":
        if v == "toomany":
            GeneralOrbitalSystem(l * (1 if bs.includes_spin else 2) + 1, bs)
        elif v == "neg":
            GeneralOrbitalSystem(-2, bs)
        elif v == "good":
            if bs.includes_spin and bs.u is not None or not (
                    incomplete or bs.s is None):
                raise Infeasible
            GeneralOrbitalSystem(1, bs)
            if bs.includes_spin:
                raise Infeasible  # not refused
        elif v == "good0":
            if bs.includes_spin or not (incomplete or bs.s is None):
                raise Infeasible
            GeneralOrbitalSystem(1, bs, anti_symmetrize=False)
        else:
            if bs.includes_spin:
                raise Infeasible
            a, b = BADSPIN[v]
            GeneralOrbitalSystem(1, bs, a=a, b=b)
    elif k == "sp":
        SpatialOrbitalSystem({"odd": 1, "toomany": 2 * l + 2, "neg": -2}[v],
                             bs)
    elif k == "con":
        if not issys or bs.includes_spin:
            raise Infeasible
        a, b = BADSPIN[v]
        o.construct_general_orbital_system(a=a, b=b)
    elif k == "copy":
        bs.something = Uncopyable()
        try:
            o.copy_system() if issys else o.copy_basis()
        finally:
            del bs.something
    elif k == "size":
        if not issys:
            raise Infeasible
        o.set_system_size(-1 if v == "neg" else l + 1, l)
    elif k == "repr":
        if not isinstance(bs, ODSincDVR):
            raise Infeasible
        if v == "bogus":
            bs.set_u_repr("3d")
        else:
            u = np.asarray(bs.u)
            if u.ndim == 2:
                raise Infeasible
            m = u.copy()
            for p in range(l):
                for q in range(l):
                    m[p, q, p, q] = 0
            if np.max(np.abs(m)) < 1e-6:
                raise Infeasible
            bs.set_u_repr("2d")
    else:
        raise KeyError(call)


PRE = ["cb:U", "cb:S", "dbl:1", "as", "cast", "copy", "set:h", "con"]
POST = ["cb:U", "cb:X", "dbl:1", "as", "cast", "copy", "con", "mod",
        "fill"]


def bounds(tier):
    q = tier == "quick"
    return dict(pre_depth=1 if q else 2, post_depth=1, calls=BAD,
                pairs_of_refused_calls=True, contents=list(KINDS),
                containers=["basis", "spatial", "gos"], operators=OPERATOR,
                pre=PRE, post=POST)


def setup(tier):
    KINDS["odqd"]()
    KINDS["sinc2"]()


def cases(tier):
    b = bounds(tier)
    for d in range(b["pre_depth"] + 1):
        for k in KINDS:
            for cont in ("basis", "spatial", "gos"):
                for pre in itertools.product(PRE, repeat=d):
                    for c in BAD:
                        for post in [[]] + [[p] for p in POST]:
                            if d == 2 and post not in ([], ["cb:U"]):
                                continue
                            yield dict(kind=k, cont=cont, pre=list(pre),
                                       bad=[c], post=post)
    for k in OPERATOR:
        for cont in ("spatial+", "gos+"):
            for c in BAD:
                for post in [[]] + [[p] for p in POST]:
                    yield dict(kind=k, cont=cont, pre=[], bad=[c], post=post)
                for pre in PRE:
                    yield dict(kind=k, cont=cont, pre=[pre], bad=[c], post=[])
    for k in ("plain", "sinc2"):
        for cont in ("basis", "spatial", "gos"):
            for c1 in BAD:
                for c2 in BAD:
                    yield dict(kind=k, cont=cont, pre=[], bad=[c1, c2],
                               post=["cb:U"])


def build(case):
    bs = KINDS[case["kind"]]()
    c = case["cont"]
    if c == "basis":
        return bs
    if bs.h is None or bs.u is None or bs.s is None:
        if c == "gos" and not bs.includes_spin:
            raise Infeasible
    if c.startswith("spatial"):
        if bs.includes_spin:
            raise Infeasible
        sy = SpatialOrbitalSystem(2, bs)
    else:
        sy = GeneralOrbitalSystem(1, bs, anti_symmetrize=False)
    if c.endswith("+"):
        sy.operator = LaserField(0.7, R.frozen(np.arange(1.0, bs.dim + 1)))
        sy.set_time_evolution_operator(sy.operator)
    return sy


def act(o, op):
    if op == "fill":
        b = R.basis_of(o)
        for n in ("h", "s", "u"):
            if getattr(b, n) is None:
                setattr(b, n, R.generic((b.l,) * (4 if n == "u" else 2), True,
                                        "fill"))
        if b.includes_spin:
            b.anti_symmetrize_two_body_elements()
        return o
    if op == "con":
        if o is basis_of(o) or R.basis_of(o).includes_spin or (
                o.s is None or o.h is None or o.u is None):
            raise Infeasible
        return o.construct_general_orbital_system()
    bs = basis_of(o)
    if (bs.h is None or bs.u is None) and op.split(":")[0] in (
            "cb", "dbl", "as", "copy"):
        raise Infeasible
    if op.startswith("dbl") and bs.s is None:
        raise Infeasible
    do(o, op)
    return o


def view(o):
    bs = basis_of(o)
    if o is not bs and (bs.h is None or bs.u is None):
        d = observe(bs)
        d.update({n: getattr(o, n) for n in ("n", "l", "m", "o", "v")})
        return d
    own = {}
    if hasattr(o, "operator"):  # the installed operator itself, asked first
        own["operator"] = np.array(o.operator.h_t(0.3))
    return {**observe(o), **own}


def run_case(case):
    st = Stats()
    where = str(case)
    o = build(case)
    ctrl = build(case)
    for op in case["pre"]:
        o, ctrl = act(o, op), act(ctrl, op)
        st.step()
    before = view(o)
    compare(before, view(ctrl), where + " (harness: control)")
    for c in case["bad"]:
        st.step()
        try:
            bad(o, c)
        except Infeasible:
            raise
        except Exception as e:
            if not frames_in_repo(e):
                raise
        else:
            raise Violation(f"{where}: {c} was accepted")
        compare(view(o), before, f"{where} after refused {c}")
        b1, b2 = basis_of(o), basis_of(ctrl)
        if hasattr(b1, "something") or b1.np is not b2.np or (
                o is not b1 and o.np is not ctrl.np):
            raise Violation(f"{where}: array module lost")
    for op in case["post"]:
        o, ctrl = act(o, op), act(ctrl, op)
        st.step()
    final = view(o)
    compare(final, view(ctrl), f"{where} at the end")
    st.state(R.digest(case["kind"], case["cont"], *[
        v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode()
        for v in final.values()], str(case["bad"])))
    return st
