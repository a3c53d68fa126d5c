"""Schedules of the parallel loops of a numba function, on its own Python body.

The body of a parallel function is executed with `prange` and the array module
replaced by stand-ins.  Arrays made outside a parallel loop are shared between
its iterations; every access to one of their cells is an event.  `footprints`
returns what every iteration reads and writes.  If no iteration touches a cell
that another one writes, all schedules give the same result.  Otherwise
`schedules` enumerates executions in which iteration j runs as a whole before
the k-th event of iteration i, for all i, j, k (one preemption; k = 0: before,
i.e. in another order).
"""
import types

import numba
import numpy as np
from numba.core.registry import CPUDispatcher


class Unsupported(Exception):
    pass


class _Done(Exception):
    pass


class Tr(np.ndarray):
    """Array that reports accesses to its cells."""

    run = None

    def __array_finalize__(self, obj):
        self.run = getattr(obj, "run", None)

    def _addr(self):
        a = np.full(self.shape, self.__array_interface__["data"][0], np.int64)
        for d, (n, s) in enumerate(zip(self.shape, self.strides)):
            sh = [1] * self.ndim
            sh[d] = n
            a += (np.arange(n) * s).reshape(sh)
        return a

    def _cells(self, idx=Ellipsis):
        # the common case: a scalar element
        if type(idx) is tuple and len(idx) == self.ndim and all(
                isinstance(i, (int, np.integer)) for i in idx):
            a = self.__array_interface__["data"][0]
            for i, n, s in zip(idx, self.shape, self.strides):
                if not -n <= i < n:
                    raise IndexError(idx)
                a += int(i % n) * s
            return (a,)
        return tuple(np.ravel(self._addr()[idx]).tolist())

    def __getitem__(self, idx):
        out = np.ndarray.__getitem__(self, idx)
        if isinstance(out, np.ndarray) and (
                not out.size or self._owns(out)):
            return out  # a view
        if self.run:
            self.run.event("r", self._cells(idx))
            out = np.ndarray.__getitem__(self, idx)
        return out if not isinstance(out, Tr) else np.array(out)

    def _owns(self, out):
        a = self._addr()
        return a.min() <= out.__array_interface__["data"][0] <= a.max()

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def copy(self, *a):
        return self._read()

    def flatten(self, *a):
        return self._read().flatten(*a)

    def astype(self, *a, **kw):
        return self._read().astype(*a, **kw)

    def dot(self, x):
        return self._read().dot(x)

    def tolist(self):
        return self._read().tolist()

    def __setitem__(self, idx, value):
        if isinstance(value, Tr):
            value = value._read()
        if self.run:
            if not self.run.event("w", self._cells(idx)):
                return
        np.ndarray.__setitem__(self, idx, value)

    def _read(self):
        if self.run:
            self.run.event("r", self._cells())
        return np.array(self)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [x._read() if isinstance(x, Tr) else x for x in inputs]
        if out is not None:
            res = getattr(ufunc, method)(*ins, **kw)
            o = out[0]
            o[...] = res
            return o
        return getattr(ufunc, method)(*ins, **kw)

    def __array_function__(self, func, types_, args, kwargs):
        def plain(x):
            if isinstance(x, Tr):
                return x._read()
            if isinstance(x, (list, tuple)):
                return type(x)(plain(y) for y in x)
            return x

        if "out" in kwargs:
            raise Unsupported("out=")
        return func(*plain(args), **{k: plain(v) for k, v in kwargs.items()})


class Run:
    """One execution."""

    def __init__(self, fn, n, loop=None, i=None, k=None, j=None):
        self.plan = (loop, i, k, j)
        self.shared = []      # arrays made outside parallel loops, in order
        self.iter = None      # current iteration
        self.loop = -1        # current parallel loop
        self.count = 0        # events of the current iteration
        self.foot = {}        # (loop, iteration) -> (reads, writes)
        self.events = {}      # (loop, iteration) -> number of events
        self.worker = None    # (loop, j) while the preempting iteration runs
        self.nalloc = 0
        self.fn = clone(fn, self)
        self.n = n

    # -- events
    def event(self, kind, cells):
        """Returns False if the access has to be dropped."""
        if self.iter is None:
            # before or after a loop; the preempting thread does not repeat it
            return self.worker is None
        key = (self.loop, self.iter)
        loop, i, k, j = self.plan
        if self.worker is None and key == (loop, i) and self.count == k:
            self.count += 1
            self.preempt()
        else:
            self.count += 1
        f = self.foot.setdefault(key, (set(), set()))
        f[kind == "w"].update(cells)
        return True

    def preempt(self):
        loop, i, k, j = self.plan
        saved = self.iter, self.loop, self.count, self.nalloc
        self.worker = (loop, j)
        self.iter, self.loop, self.count, self.nalloc = None, -1, 0, 0
        try:
            self.fn(self.n)
            raise Unsupported("the loop was not reached again")
        except _Done:
            pass
        finally:
            self.worker = None
            self.iter, self.loop, self.count, self.nalloc = saved

    # -- stand-ins
    def prange(self, *args):
        if self.iter is not None:  # a nested parallel loop runs sequentially
            yield from range(*args)
            return
        self.loop += 1
        if self.worker is not None:
            loop, j = self.worker
            if self.loop == loop:
                self.iter, self.count = j, 0
                yield j
                self.iter = None
                raise _Done
            return
        loop, i, k, j = self.plan
        for x in range(*args):
            if self.loop == loop and x == j:
                continue  # ran inside iteration i
            self.iter, self.count = x, 0
            self.foot.setdefault((self.loop, x), (set(), set()))
            yield x
            self.events[self.loop, x] = self.count
            self.iter = None

    def made(self, x):
        if not isinstance(x, np.ndarray):
            return x
        if self.iter is not None:
            return x  # private to the iteration
        if self.worker is not None:
            self.nalloc += 1
            return self.shared[self.nalloc - 1]
        t = np.array(x).view(Tr)
        t.run = self
        self.shared.append(t)
        return t


class Module:
    def __init__(self, mod, run):
        self.__dict__.update(_mod=mod, _run=run)

    def __getattr__(self, name):
        if self._mod is numba and name == "prange":
            return self._run.prange
        x = getattr(self._mod, name)
        if isinstance(x, types.ModuleType):
            return Module(x, self._run)
        if callable(x) and not isinstance(x, type) and self._mod is not numba:
            return lambda *a, **kw: self._run.made(x(*a, **kw))
        return x


def call(disp, run):
    """Compiled function called from the body: its Python version, if it is
    handed an array."""
    def f(*a, **kw):
        if any(isinstance(x, np.ndarray) for x in [*a, *kw.values()]):
            return run.made(clone(disp, run)(*a, **kw))
        return run.made(disp(*a, **kw))
    return f


def clone(disp, run):
    fn = disp.py_func
    g = dict(fn.__globals__)
    for k, v in list(g.items()):
        if isinstance(v, CPUDispatcher):
            g[k] = call(v, run)
        elif v is numba.prange:
            g[k] = run.prange
        elif v is numba or v is np:
            g[k] = Module(v, run)
    return types.FunctionType(fn.__code__, g, fn.__name__, fn.__defaults__,
                              fn.__closure__)


def parallel_functions(mod):
    return {k: v for k, v in vars(mod).items()
            if isinstance(v, CPUDispatcher) and v.targetoptions.get("parallel")}


def sequential(fn, n):
    r = Run(fn, n)
    out = r.fn(n)
    return r, np.array(out)


def conflicts(foot):
    """Pairs of iterations of a loop that are not independent."""
    out = []
    keys = sorted(foot)
    for a in keys:
        for b in keys:
            if a[0] == b[0] and a[1] != b[1] and (
                    foot[a][1] & foot[b][1] or foot[a][1] & foot[b][0]):
                if (a[0], a[1], b[1]) not in out:
                    out.append((a[0], a[1], b[1]))
                if (a[0], b[1], a[1]) not in out:
                    out.append((a[0], b[1], a[1]))
    return out


def schedules(fn, n, run, pairs):
    """Yields (description, result) of every execution with one preemption."""
    for loop, i, j in pairs:
        for k in range(run.events[loop, i]):
            r = Run(fn, n, loop, i, k, j)
            yield (f"iteration {j} before event {k} of iteration {i} of "
                   f"parallel loop {loop}", np.array(r.fn(n)))
