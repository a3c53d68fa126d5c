"""C21: random basis sets always have the integral symmetries."""
import itertools
import types
from unittest import mock

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from quantum_systems import (
    GeneralOrbitalSystem, RandomBasisSet, SpatialOrbitalSystem)

RULE = """
The random generator is replaced by a scripted one, so the draws are the
nondeterministic choices of the program and are enumerated: every assignment of
{0, 1/2, largest value below 1} to the draws of the smallest set, and for
larger sets every single and every pair of draws raised against a background
(zero, one half, generic).  A case is (sizes, module, background, choice).  Symmetries are
checked on every outcome; the rank of the map from draws to elements must be
that of all matrices with the symmetries.  Non-trivial: always.
"""
ASSUMPTIONS = ["draws enter through the usual numpy.random functions"]
CHUNK = 16
DIMS = range(0, 7)
TOP = 1 - 2.0 ** -53


class Script:
    """numpy.random with a scripted stream of numbers in [0, 1)."""

    def __init__(self, f):
        self.f = f  # draw index -> number
        self.n = 0

    def take(self, shape):
        if shape is None:
            shape = ()
        if isinstance(shape, (int, np.integer)):
            shape = (int(shape),)
        size = int(np.prod(shape))
        out = np.array([self.f(self.n + i) for i in range(size)], float)
        self.n += size
        return float(out[0]) if shape == () else out.reshape(shape)

    def random(self, size=None, *a, **k):
        return self.take(size)

    random_sample = ranf = sample = random

    def standard_normal(self, size=None, *a, **k):
        return self.take(size)

    def rand(self, *shape):
        return self.take(shape)

    randn = rand

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.take(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.take(size)

    def seed(self, *a, **k):
        pass

    def default_rng(self, *a, **k):
        return self

    RandomState = Generator = default_rng
    NAMES = ("random random_sample ranf sample standard_normal rand randn "
             "uniform normal seed default_rng RandomState").split()


def scripted(f, l, dim, how, kw=None, again=0):
    sc = Script(f)
    kw = dict(kw or {})
    if how == "shim":
        m = R.shim_module("scripted")
        m.random = sc
        bs = RandomBasisSet(l, dim, np=m, **kw)
        for i in range(again):
            bs.setup_basis()
    else:
        ps = [mock.patch.object(np.random, n, getattr(sc, n), create=True)
              for n in Script.NAMES]
        for p in ps:
            p.start()
        try:
            bs = RandomBasisSet(l, dim, **kw)
            for i in range(again):
                bs.setup_basis()
        finally:
            for p in ps:
                p.stop()
    return bs, sc.n


BG = {"zero": lambda i: 0.0, "half": lambda i: 0.5, "top": lambda i: TOP,
      "gen": lambda i: (0.137 + 0.6180339887 * i) % 1.0}
NDRAW = {}


def draws(l, dim):
    return scripted(BG["zero"], l, dim, "shim")[1]


def bounds(tier):
    return dict(all_assignments=dict(l=1, dim=[0, 1], values=[0, 0.5, TOP]),
                single_draws="l <= %d, dim <= 6" % (3 if tier == "quick"
                                                    else 4),
                pairs_of_draws="l <= 2, dim <= 1", backgrounds=sorted(BG),
                sizes_swept="l = 0..12, dim = 0..6; l = 16, 17, 20 (13..24), dim 1")


def setup(tier):
    for l in (1, 2, 3, 4):
        for dim in DIMS:
            NDRAW[l, dim] = draws(l, dim)


def cases(tier):
    for how in ("shim", "default"):
        for l in range(0, 13):
            for dim in DIMS:
                for bg in BG:
                    yield dict(how=how, l=l, dim=dim, bg=bg, up=[])
        for l in (16, 17, 20) if tier == "quick" else range(13, 25):
            for bg in ("gen", "top"):
                yield dict(how=how, l=l, dim=1, bg=bg, up=[])
        for l in (1, 2, 3):
            for kw in (dict(includes_spin=True), dict(anti_symmetrized_u=True),
                       dict(includes_spin=True, anti_symmetrized_u=True)):
                yield dict(how=how, l=l, dim=2, bg="gen", up=[], kw=kw)
            for again in (1, 2):
                yield dict(how=how, l=l, dim=2, bg="gen", up=[], again=again)
    for dim in (0, 1):
        n = NDRAW[1, dim]
        for first in itertools.product((0, 1, 2), repeat=max(n - 6, 0)):
            yield dict(how="shim", l=1, dim=dim, all=list(first), n=n)
    for l in range(1, 13):
        for dim in DIMS:
            yield dict(vary=1, l=l, dim=dim)
    for l in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for dim in DIMS:
            yield dict(rank=1, l=l, dim=dim)
            for bg in BG:
                for k in range(NDRAW[l, dim]):
                    yield dict(how="shim", l=l, dim=dim, bg=bg, up=[k])
    for l in (1, 2):
        n = NDRAW[l, 1]
        for bg in ("zero", "gen"):
            for k, j in itertools.combinations(range(n), 2):
                yield dict(how="shim", l=l, dim=1, bg=bg, up=[k, j])
    for shape in (0, 1, 3, (), (2,), (2, 3), (0, 2), (2, 2, 2, 2)):
        for bg in BG:
            yield dict(elements=shape, bg=bg)


def verify(bs, l, dim, case):
    h, s, u, d = bs.h, bs.s, bs.u, bs.dipole_moment
    for name, a, shp in (("h", h, (l, l)), ("s", s, (l, l)),
                         ("u", u, (l,) * 4), ("dipole", d, (dim, l, l))):
        if np.shape(a) != shp:
            raise Violation(f"{case}: {name} has shape {np.shape(a)}")
        if not np.all(np.isfinite(a)):
            raise Violation(f"{case}: {name} not finite")
    if bs.l != l or bs.dim != dim:
        raise Violation(f"{case}: l={bs.l}, dim={bs.dim}")
    for name, a in [("h", h), ("s", s)] + [
            (f"dipole {i}", d[i]) for i in range(dim)]:
        a = np.asarray(a)
        if np.abs(a - a.conj().T).max(initial=0) > 1e-14:
            raise Violation(f"{case}: {name} not Hermitian: {a}")
    u = np.asarray(u)
    if np.abs(u - u.transpose(1, 0, 3, 2)).max(initial=0) > 1e-14:
        raise Violation(f"{case}: u lacks the particle-exchange symmetry")
    e = bs.nuclear_repulsion_energy
    if np.ndim(e) or abs(np.imag(e)) > 0 or not np.isfinite(e):
        raise Violation(f"{case}: nuclear repulsion energy {e}")


def vector(bs):
    return np.concatenate([np.asarray(x, complex).ravel() for x in (
        bs.h, bs.s, bs.u, bs.dipole_moment,
        np.array([bs.nuclear_repulsion_energy]))])


def run_case(case):
    st = Stats()
    if "elements" in case:
        shape = case["elements"]
        shape = tuple(shape) if isinstance(shape, (list, tuple)) else shape
        m = R.shim_module("scripted")
        m.random = sc = Script(BG[case["bg"]])
        a = RandomBasisSet.get_random_elements(shape, m)
        st.step()
        want = shape if isinstance(shape, tuple) else (shape,)
        if np.shape(a) != want or not np.iscomplexobj(a):
            raise Violation(f"{case}: {np.shape(a)}, {np.asarray(a).dtype}")
        st.state(R.digest(repr(case)))
        return st
    l, dim = case["l"], case["dim"]
    if "vary" in case:
        vary(l, dim, case, st)
    elif "rank" in case:
        rank(l, dim, case, st)
    elif "all" in case:
        head = case["all"]
        vals = (0.0, 0.5, TOP)
        for tail in itertools.product((0, 1, 2), repeat=case["n"] - len(head)):
            a = tuple(head) + tail
            bs, _ = scripted(lambda i: vals[a[i]] if i < len(a) else 0.25, l,
                             dim, "shim")
            verify(bs, l, dim, f"{case} {tail}")
            st.step()
        st.state(R.digest(repr(case)))
    else:
        bg = BG[case["bg"]]
        up = case["up"]
        bs, n = scripted(lambda i: (1 - bg(i)) * TOP if i in up else bg(i), l,
                         dim, case["how"], case.get("kw"),
                         case.get("again", 0))
        st.step()
        verify(bs, l, dim, case)
        for k, v in (case.get("kw") or {}).items():
            if getattr(bs, k) != v:
                raise Violation(f"{case}: {k} is {getattr(bs, k)}")
        if not up and l and not case.get("kw"):
            if l >= 1:
                SpatialOrbitalSystem(0, bs)
        st.state(R.digest(repr(case)))
    return st


def vary(l, dim, case, st):
    """Every draw changed at once, from one generic assignment to another: the
    real and the imaginary part of every element must move, and no two elements
    by the same amount unless the symmetries relate them."""
    def other(i):
        return (0.41 + 0.7548776662 * (i + 1) + 0.05 * np.sin(i * i)) % 1.0

    a = scripted(BG["gen"], l, dim, "shim")[0]
    b = scripted(other, l, dim, "shim")[0]
    st.step(2)
    i = np.arange(l)
    herm = np.ones((l, l), bool)
    herm[i, i] = False
    pq, rs = np.indices((l * l, l * l))
    swap = np.arange(l * l).reshape(l, l).T.ravel()
    partner = swap[pq] * l * l + swap[rs]
    me = pq * l * l + rs
    first = (me <= partner).reshape((l,) * 4)  # one of every pair
    free = []
    for name in ("h", "s", "u", "dipole_moment"):
        x = np.asarray(getattr(b, name)) - np.asarray(getattr(a, name))
        if name == "u":
            parts = [x.real[first], x.imag[first]]
        elif name == "dipole_moment":
            up = np.triu(np.ones((l, l), bool))
            parts = [y.real[up] for y in x] + [
                y.imag[up & herm] for y in x]
        else:
            up = np.triu(np.ones((l, l), bool))
            parts = [x.real[up], x.imag[up & herm]]
        y = np.concatenate(parts) if parts else np.zeros(0)
        if y.size and np.abs(y).min() < 1e-9:
            raise Violation(f"{case}: {int((np.abs(y) < 1e-9).sum())} of "
                            f"{y.size} independent parts of {name} do not "
                            "depend on the draws")
        free.append(y)
    y = np.sort(np.abs(np.concatenate(free)))
    # generic numbers: two equal to within 1e-14 only if drawn together
    same = int((np.diff(y) < 1e-14).sum()) if y.size > 1 else 0
    if same > y.size // 100:
        raise Violation(f"{case}: {same} of {y.size} independent parts move "
                        "together with another one")
    st.state(R.digest(repr(case)))


def rank(l, dim, case, st):
    """Jacobian of all elements with respect to the draws (affine map)."""
    base, n = scripted(BG["gen"], l, dim, "shim")
    v0 = vector(base)
    J = []
    for k in range(n):
        bs, _ = scripted(lambda i: BG["gen"](i) + (0.25 if i == k else 0), l,
                         dim, "shim")
        st.step()
        J.append(vector(bs) - v0)
    J = np.array(J)
    dep = np.abs(J).max(axis=0) > 1e-9
    if not dep.all():
        i = int(np.argmin(dep))
        raise Violation(f"{case}: element {i} (of h, s, u, dipole, energy in "
                        "that order) does not depend on any draw")
    sizes = [("h", l * l, l * l), ("s", l * l, l * l),
             ("u", l ** 4, l ** 4 + l ** 2), ("dipole", dim * l * l,
                                              dim * l * l)]
    pos = 0
    for name, m, want in sizes:
        B = J[:, pos:pos + m]
        pos += m
        if not m:
            continue
        r = np.linalg.matrix_rank(np.hstack([B.real, B.imag]), tol=1e-7)
        if r != want:
            raise Violation(f"{case}: {name} has {r} independent real "
                            f"parameters, {want} with the symmetries alone")
    tot = np.linalg.matrix_rank(np.hstack([J.real, J.imag]), tol=1e-7)
    if tot != sum(w for _, _, w in sizes) + 1:
        raise Violation(f"{case}: {tot} independent parameters in total: "
                        "elements are drawn dependently")
    st.state(R.digest(repr(case)))
