"""Exhaustive bounded exploration of the real code: driver, evidence, replay.

A check module offers

    cases(tier)      -> iterator of JSON-able cases, simplest first; the whole
                        (finite) space that the check claims to cover
    run_case(case)   -> Stats for one execution against the real code; raises
                        Violation when the oracle disagrees, Known for a
                        specific, individually identified finding

The driver runs *every* case (no sampling, no early cut unless a violation was
found), counts what was covered, and writes the evidence file.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
import warnings
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")


class Violation(Exception):
    pass


class Known(Exception):
    """A violation that carries the key of one specific finding."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Infeasible(Exception):
    """The case does not exist in this state space (operation not enabled)."""


class Stats:
    __slots__ = ("transitions", "states", "nontrivial")

    def __init__(self):
        self.transitions = 0
        self.states = []
        self.nontrivial = True

    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        self.states.append(key)


def digest(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return h.digest()


def frames_in_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


_MODULE = None


CASE_LIMIT = 300  # seconds; a case takes milliseconds to a few seconds


class Hang(BaseException):
    """An operation did not return within the limit."""


def _hang(*_):
    raise Hang(f"no result within {CASE_LIMIT} s")


def _guarded(case):
    """Run one case; classify the outcome."""
    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.signal(signal.SIGALRM, _hang)
        signal.alarm(getattr(_MODULE, "CASE_LIMIT", CASE_LIMIT))
    try:
        return _outcome(case)
    finally:
        if main:
            signal.alarm(0)


def _outcome(case):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            st = _MODULE.run_case(case)
        if st is None:
            st = Stats()
            st.transitions = 1
        return ("ok", st.transitions, st.states, st.nontrivial)
    except Infeasible:
        return ("skip",)
    except Known as k:
        return ("known", k.key, k.msg)
    except Violation as v:
        return ("violation", str(v))
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if frames_in_repo(e):
            return (
                "violation",
                "the code under test raised on a permitted operation:\n" + txt,
            )
        return ("error", txt)


def _quiet():
    """Workers do not write into the output of the check."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.close(fd)


def _batch(cases):
    out = []
    for c in cases:
        r = _guarded(c)
        out.append(r)
        if r[0] in ("violation", "error"):
            break
    return out


def _serve(conn):
    _quiet()
    try:
        while True:
            k, cases = conn.recv()
            conn.send((k, _batch(cases)))
    except (EOFError, OSError):
        pass


class Workers:
    """Forked workers, one pipe each; results are handed out in order."""

    def __init__(self, n):
        ctx = mp.get_context("fork")
        self.procs = {}
        for _ in range(n):
            here, there = ctx.Pipe()
            p = ctx.Process(target=_serve, args=(there,), daemon=True)
            p.start()
            there.close()
            self.procs[here] = p

    def run(self, batches, ahead):
        """Yields (batch, results, exit code of a worker that died)."""
        sent, done, idle = {}, {}, list(self.procs)
        out = first = 0
        while True:
            while idle and out - first < ahead:
                b = next(batches, None)
                if b is None:
                    break
                c = idle.pop()
                sent[c] = (out, b)
                try:
                    c.send((out, b))
                except OSError:
                    pass  # it died: seen below
                out += 1
            if not sent:
                return
            ends = {self.procs[c].sentinel: c for c in sent}
            ready = wait([*sent, *ends])
            for c in {ends.get(x, x) for x in ready}:
                k, b = sent[c]
                try:
                    k, r = c.recv() if c.poll() else (k, None)
                except (EOFError, OSError):
                    r = None
                if r is None:
                    self.procs[c].join(10)
                    yield b, None, self.procs[c].exitcode
                    return
                del sent[c]
                idle.append(c)
                done[k] = (b, r)
            while first in done:
                b, r = done.pop(first)
                first += 1
                yield b, r, None

    def stop(self):
        for p in self.procs.values():
            p.terminate()
        for p in self.procs.values():
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()


def _locate_death(cases, code):
    """A worker process died: find the execution that kills its process."""
    if code != -signal.SIGKILL:
        for c in cases:
            pid = os.fork()
            if pid == 0:
                _guarded(c)
                os._exit(0)
            sig = os.waitpid(pid, 0)[1] & 0x7f
            if sig and sig != signal.SIGKILL:
                return (c, "violation", "the code under test ended the "
                        f"process with signal {sig}")
    return (cases[0], "error", f"a worker ended with exit code {code}")


def _chunks(it, n):
    buf = []
    for c in it:
        buf.append(c)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {
        e["key"]: e
        for e in data["findings"]
        if e["property"] == pid and e["status"] == "known"
    }


def write_replay(pid, case, msg):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump(
            dict(
                property=pid,
                case=case,
                message=msg,
                how=f"bash {VERIF}/check.sh {pid} --replay {path}",
            ),
            f,
            indent=1,
        )
    return path


def run(pid, module, replay=None):
    global _MODULE
    _MODULE = module
    t0 = time.time()
    known = load_known(pid)
    if replay:
        with open(replay) as f:
            case = json.load(f)["case"]
        if hasattr(module, "setup"):
            module.setup(TIER)
        r = _guarded(case)
        if r[0] == "violation" or (r[0] == "known" and r[1] not in known):
            print(r[-1])
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replay outcome:", r[0])
        return 2 if r[0] == "error" else 0

    if hasattr(module, "setup"):
        # may compile / precompute before workers are forked
        try:
            module.setup(TIER)
        except BaseException as e:  # noqa
            txt = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )
            if isinstance(e, Violation) or frames_in_repo(e):
                path = write_replay(pid, None, txt)
                print(txt)
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            raise

    ev = 0
    skipped = 0
    transitions = 0
    states = set()
    nontrivial = 0
    found = {}
    samples = []
    bad = None
    nproc = getattr(module, "PROCS", None) or min(8, os.cpu_count() or 1)
    chunk = getattr(module, "CHUNK", 16)
    gen = _chunks(module.cases(TIER), chunk)

    def consume(batch, results):
        nonlocal ev, skipped, transitions, nontrivial, bad
        for c, r in zip(batch, results):
            if r[0] == "skip":
                skipped += 1
                continue
            ev += 1
            if len(samples) < 3 or (ev in (100, 1000, 10000)):
                samples.append(c)
            if r[0] == "ok":
                transitions += r[1]
                states.update(r[2])
                nontrivial += 1 if r[3] else 0
            elif r[0] == "known":
                transitions += 1
                if r[1] in known:
                    found.setdefault(r[1], (c, r[2]))
                else:
                    bad = (c, "violation", r[2])
                    return False
            else:
                bad = (c, r[0], r[1])
                return False
        return True

    sys.stdout.flush()
    if nproc == 1:
        for b in gen:
            if not consume(b, _batch(b)):
                break
    else:
        workers = Workers(nproc)
        try:
            for batch, results, died in workers.run(gen, 4 * nproc):
                if died is not None:
                    bad = _locate_death(batch, died)
                    break
                if not consume(batch, results):
                    break
        finally:
            workers.stop()

    coverage = dict(
        evaluations=ev,
        distinct_nontrivial=nontrivial,
        states=len(states),
        transitions=max(transitions, 1),
        traces_validated_against_impl=ev,
        exhaustive=bad is None,
        cases_not_enabled=skipped,
        rule=getattr(module, "RULE", "").strip(),
        bounds=module.bounds(TIER) if hasattr(module, "bounds") else {},
        samples=samples[:6],
        known_findings_seen=sorted(found),
    )
    if hasattr(module, "extra_coverage"):
        coverage.update(module.extra_coverage())
    evidence = dict(
        property=pid,
        tier=TIER,
        seed=SEED,
        level="model_checking",
        coverage=coverage,
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 3),
        violations=1 if bad else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for key, (c, msg) in sorted(found.items()):
        print(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
    print(
        f"{pid} tier={TIER}: executions={ev} transitions={transitions} "
        f"states={coverage['states']} not_enabled={skipped} "
        f"wall={evidence['wall_s']}s"
    )
    if bad:
        case, kind, msg = bad
        print(f"case: {json.dumps(case)}")
        print(msg)
        if kind == "error":
            print("harness error")
            return 2
        path = write_replay(pid, case, msg)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if ev == 0:
        print("nothing explored")
        return 2
    return 0
