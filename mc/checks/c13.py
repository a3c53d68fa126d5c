"""C13: caching of Coulomb elements is invisible, crash-safe and shareable."""
import itertools
import json
import os
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import traceback

import numpy as np

from mc.core import Infeasible, Stats, Violation
from mc import ref as R
from mc.oracle2d import nm_list, table
from quantum_systems import TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim import two_dim_helper as H

RULE = """
A case is (a) a history of calls with sizes, cache toggles, process restarts,
set constructions and writes into returned arrays; (b) one crash point: the
process is killed (SIGKILL), or an I/O error or interrupt is raised, at the
k-th executed Python line of a cache-filling or cache-reading call; (c) one
torn write: the file-size limit stops the write after exactly N bytes, killing
the process or failing the write; (d) one schedule of two processes: preempted
at line k (and line j), everything else run to completion.  All k, N, (k, j)
are enumerated.  After each, fresh processes must still return complete,
correct elements (exact oracle).  Non-trivial: the fault or switch happened.
"""
ASSUMPTIONS = [
    "crash = process death (data handed to the kernel survives); loss of "
    "kernel buffers by a power failure is not modelled",
    "scheduling points: Python lines of the package and of numpy's save/load",
]
SIZES = [1, 2, 3, 12]
LIMIT = 60  # seconds for a call that takes milliseconds
BLOCKED = 3  # seconds after which a process counts as waiting
EXACT = {}
COUNT = {}


def exact(l):
    if l not in EXACT:
        EXACT[l] = table(nm_list(l))
    return EXACT[l]


def ok(u, l, scale=1.0):
    w = exact(l)
    u = np.asarray(u)
    return u.shape == w.shape and u.dtype.kind in "fc" and bool(
        np.all(np.abs(u - scale * w) <= 1e-8))


# ---------------------------------------------------------------- processes
def enter(d, path0=None):
    os.chdir(d)
    sys.path[0] = d if path0 is None else path0
    os.environ["QS_CACHE_TDHO"] = "1"


class Child:
    """A forked process running fn(child); reports one JSON message."""

    def __init__(self, fn):
        self.r, w = os.pipe()
        gr, self.go = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(self.r)
                os.close(self.go)
                self.w, self.gr = w, gr
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 1)
                try:
                    msg = fn(self)
                except BaseException as e:  # noqa
                    sys.settrace(None)
                    msg = "exception: " + "".join(traceback.format_exception(
                        type(e), e, e.__traceback__))[-1500:]
                sys.settrace(None)
                self.send(msg)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        os.close(gr)

    def send(self, msg):
        b = json.dumps(msg).encode()
        os.write(self.w, struct.pack("<I", len(b)) + b)

    def pause(self):  # in the child
        self.send("#paused")
        os.read(self.gr, 1)

    def ready(self, seconds):
        return bool(select.select([self.r], [], [], seconds)[0])

    def recv(self):  # in the parent; None at end
        def rd(n):
            out = b""
            while len(out) < n:
                if not self.ready(LIMIT):
                    os.kill(self.pid, signal.SIGKILL)
                    os.waitpid(self.pid, 0)
                    raise Violation("a call for Coulomb elements does not "
                                    f"return within {LIMIT} s")
                c = os.read(self.r, n - len(out))
                if not c:
                    return None
                out += c
            return out

        h = rd(4)
        if h is None:
            return None
        return json.loads(rd(struct.unpack("<I", h)[0]))

    def resume(self):
        os.write(self.go, b"g")

    def finish(self):
        msg = self.recv()
        while msg == "#paused":
            self.resume()
            msg = self.recv()
        os.close(self.r)
        os.close(self.go)
        _, status = os.waitpid(self.pid, 0)
        return msg, status


def tracer(hit, only=None):
    """Line tracer calling hit(k) at the k-th line event."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            hit(n[0])
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if only is not None and not any(x in f for x in only):
            return None
        return local

    return glob, n


SCHED = ("/quantum_systems/", "npyio", "lib/format", "lib\\format")


def good_call(d, l, path0=None, times=1):
    """A fresh process asks for the elements `times` times."""
    def fn(c):
        enter(d, path0)
        for i in range(times):
            u = H.get_coulomb_elements(l)
            if not ok(u, l):
                return f"call {i + 1}: wrong elements for l={l}: shape " \
                       f"{np.shape(u)}, {np.asarray(u).ravel()[:4]}"
            u *= 0  # the caller's array
        return "ok"

    msg, status = Child(fn).finish()
    return "ok" if msg == "ok" else f"{msg} (status {status})"


def recover(d, l, where, st):
    for size in (l, l, 1 if l != 1 else 2):
        st.step()
        m = good_call(d, size, times=2)
        if m != "ok":
            raise Violation(f"{where}: a later call for l={size} gives: {m}; "
                            f"files {sorted(os.listdir(d))}")


# ---------------------------------------------------------------- cases
def bounds(tier):
    q = tier == "quick"
    return dict(history_depth=3 if q else 4, sizes=SIZES,
                crash_sizes=[1, 2] if q else [1, 2, 3],
                torn_write_sizes={"1": "all bytes", "2": "all bytes",
                                  "3": "all bytes" if not q else "every 16"},
                lines=COUNT, preemptions=1 if q else 2,
                modes=["SIGKILL", "OSError", "KeyboardInterrupt"])


def measure(l, warm, only=None):
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    try:
        if warm:
            good_call(d, l)

        def fn(c):
            enter(d)
            g, n = tracer(lambda k: None, only)
            sys.settrace(g)
            H.get_coulomb_elements(l)
            sys.settrace(None)
            return n[0]

        msg, status = Child(fn).finish()
        if not isinstance(msg, int):
            if "/repo/" in str(msg):
                raise Violation(f"plain caching call failed: {msg}")
            raise RuntimeError(f"measure: {msg} {status}")
        return msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup(tier):
    os.environ.pop("QS_CACHE_TDHO", None)
    H.get_coulomb_elements(1)
    TwoDimensionalHarmonicOscillator(1, 2, 3)
    for l in SIZES:
        exact(l)
    for l in (1, 2, 3):
        for warm in (0, 1):
            COUNT[f"{l}{'w' if warm else ''}"] = measure(l, warm)
    COUNT["sched"] = measure(2, 0, SCHED)


OPS = ["call:1", "call:2", "call:3", "call:12", "proc:2", "proc:12", "set:2",
       "set2:2", "toggle", "write", "np:2", "verb:2", "verb:3"]


def cases(tier):
    b = bounds(tier)
    for d in range(1, b["history_depth"] + 1):
        for h in itertools.product(OPS, repeat=d):
            if d == b["history_depth"] and not any(
                    o.split(":")[0] in ("call", "proc", "set", "set2", "np", "verb")
                    for o in h[-1:]):
                continue
            yield dict(hist=list(h), p0="dir")
            if d <= 2:
                yield dict(hist=list(h), p0="")
    for l in b["crash_sizes"]:
        for warm in (0, 1):
            for mode in ("kill", "oserror", "interrupt"):
                if warm and mode == "kill" and l > 1:
                    continue
                for k in range(1, COUNT[f"{l}{'w' if warm else ''}"] + 2):
                    yield dict(crash=mode, l=l, warm=warm, k=k)
    for l, size in ((1, 136), (2, 256), (3, 776)):
        for mode in ("kill", "error"):
            for n in range(0, size + 2, 1 if l < 3 or tier != "quick" else 16):
                yield dict(torn=mode, l=l, n=n)
    K = COUNT["sched"] + 2
    for k in range(1, K):
        for l2 in (2, 1):
            yield dict(sched=[k], l2=l2)
    step = 5 if tier == "quick" else 1
    for k in range(1, K, step):
        for j in range(1, K, step):
            yield dict(sched=[k, j], l2=2)


def run_case(case):
    st = Stats()
    d = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
    cwd, p0 = os.getcwd(), sys.path[0]
    try:
        if "hist" in case:
            history(case, st, d)
        elif "crash" in case:
            crash(case, st, d)
        elif "torn" in case:
            torn(case, st, d)
        else:
            sched(case, st, d)
    finally:
        os.chdir(cwd)
        sys.path[0] = p0
        os.environ.pop("QS_CACHE_TDHO", None)
        shutil.rmtree(d, ignore_errors=True)
    st.state(R.digest(str(case)))
    return st


def history(case, st, d):
    where = str(case)
    enter(d, "" if case["p0"] == "" else d)
    p0 = sys.path[0]
    last = None
    for op in case["hist"]:
        st.step()
        k, l = (op.split(":") + ["0"])[:2]
        l = int(l)
        if k == "call":
            last = H.get_coulomb_elements(l)
            if not ok(last, l):
                raise Violation(f"{where}: wrong elements at {op}")
        elif k == "np":
            last = H.get_coulomb_elements(np.int64(l))
            if not ok(last, l):
                raise Violation(f"{where}: wrong elements at {op}")
        elif k == "verb":
            last = H.get_coulomb_elements(l, verbose=True)
            if not ok(last, l):
                raise Violation(f"{where}: wrong elements at {op}")
        elif k == "proc":
            m = good_call(d, l, p0)
            if m != "ok":
                raise Violation(f"{where}: {op}: {m}")
        elif k in ("set", "set2"):
            om = 1 if k == "set" else 4
            bs = TwoDimensionalHarmonicOscillator(l, 2, 3, omega=om)
            if not ok(bs.u, l, np.sqrt(om)):
                raise Violation(f"{where}: wrong elements of the set, {op}")
            last = bs.u
        elif k == "toggle":
            if "QS_CACHE_TDHO" in os.environ:
                del os.environ["QS_CACHE_TDHO"]
            else:
                os.environ["QS_CACHE_TDHO"] = ""
        elif k == "write":
            if last is None:
                raise Infeasible
            try:
                last *= 0
                last += 7
            except ValueError:
                pass  # read-only results are fine


def crash(case, st, d):
    l, k, mode = case["l"], case["k"], case["crash"]
    where = str(case)
    if case["warm"]:
        m = good_call(d, l)
        if m != "ok":
            raise Violation(f"{where}: {m}")

    def fn(c):
        enter(d)

        def hit(n):
            if n == k:
                if mode == "kill":
                    os.kill(os.getpid(), signal.SIGKILL)
                raise (OSError(5, "injected") if mode == "oserror"
                       else KeyboardInterrupt())

        g, n = tracer(hit)
        sys.settrace(g)
        try:
            u = H.get_coulomb_elements(l)
            sys.settrace(None)
            if not ok(u, l):
                return "wrong elements returned in spite of the fault"
        except (Exception, KeyboardInterrupt):
            # the fault surfaced (numpy may turn it into another exception)
            sys.settrace(None)
        if n[0] < k:
            return "not reached"
        # the surviving process goes on
        for i in (0, 1):
            if not ok(H.get_coulomb_elements(l), l):
                return "wrong elements later in the same process"
        return "ok"

    msg, status = Child(fn).finish()
    st.step()
    if msg == "not reached":
        raise Infeasible
    if mode == "kill":
        if not os.WIFSIGNALED(status):
            raise Violation(f"{where}: {msg}")
    elif msg != "ok":
        raise Violation(f"{where}: {msg}")
    recover(d, l, where, st)


def torn(case, st, d):
    l, n, mode = case["l"], case["n"], case["torn"]
    where = str(case)

    def fn(c):
        enter(d)
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "kill"
                      else signal.SIG_IGN)
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
        try:
            u = H.get_coulomb_elements(l)
            if not ok(u, l):
                return "wrong elements returned"
        except Exception:
            pass  # the failed write surfaced
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        for i in (0, 1):
            if not ok(H.get_coulomb_elements(l), l):
                return "wrong elements later in the same process"
        return "ok"

    msg, status = Child(fn).finish()
    st.step()
    if msg != "ok" and not (mode == "kill" and os.WIFSIGNALED(status)
                            and os.WTERMSIG(status) == signal.SIGXFSZ):
        raise Violation(f"{where}: {msg} (status {status})")
    recover(d, l, where, st)


def sched(case, st, d):
    """Process 0 runs to its k-th line, then process 1 (to its j-th line, then
    process 0 to the end, then process 1 to the end)."""
    where = str(case)
    ks = case["sched"]

    def proc(l, stop):
        def fn(c):
            enter(d)

            def hit(n):
                if n == stop:
                    c.pause()

            g, n = tracer(hit, SCHED)
            sys.settrace(g)
            u = H.get_coulomb_elements(l)
            sys.settrace(None)
            return "ok" if ok(u, l) else "wrong elements returned"

        return Child(fn)

    a = proc(2, ks[0])
    first = a.recv()
    if first != "#paused":
        os.close(a.r)
        os.close(a.go)
        os.waitpid(a.pid, 0)
        if first != "ok":
            raise Violation(f"{where}: {first}")
        raise Infeasible
    b = proc(case["l2"], ks[1] if len(ks) > 1 else 0)
    if len(ks) > 1:
        mb = None
        if b.ready(BLOCKED):
            mb = b.recv()
        a.resume()
        ma = a.finish()
        if mb is None:
            mb = b.recv()
        if mb == "#paused":
            b.resume()
            mb = b.finish()
        else:
            mb = (mb, b.finish()[1])
    else:
        if b.ready(BLOCKED):
            mb = b.finish()
            a.resume()
        else:  # it waits for the other process
            a.resume()
            mb = b.finish()
        ma = a.finish()
    st.step(2)
    for nme, m in (("preempted", ma), ("preempting", mb)):
        if m[0] != "ok":
            raise Violation(f"{where}: {nme} process: {m}")
    recover(d, 2, where, st)
