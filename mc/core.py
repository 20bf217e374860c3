"""Exploration core shared by every check.

A check module (checks/cNN.py) defines ``groups(tier)`` -> list of
(name, function, args). Every group runs in its own forked process; its
function receives a Ctx and enumerates its space with ``ctx.run(key, fn, ...)``
(one case), ``ctx.state/trans/trace`` (explicit-state counters).
"""
import collections
import contextlib
import hashlib
import itertools
import json
import os
import re
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RT_REPO", "/repo")


class Violation(AssertionError):
    pass


class StopGroup(Exception):
    pass


def jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (list, tuple)):
        return [jsonable(i) for i in o]
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def keystr(key):
    return json.dumps(jsonable(key), sort_keys=False)


class Ctx:
    MAXV = 5

    def __init__(self, pid, tier, group, only=None, out=None):
        self.pid, self.tier, self.group, self.only = pid, tier, group, only
        self.out = out
        self.evals = 0
        self.nontrivial = 0
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self._seen = set()
        self._cur = None

    # -- one explored case ------------------------------------------------
    def run(self, key, fn, *args, **kw):
        """execute one case; any exception in it is a violation. Returns the
        value of fn (or None when skipped / violated)"""
        ks = keystr(key)
        if self.only is not None and ks != self.only:
            return None
        self.evals += 1
        h = hashlib.blake2b(ks.encode(), digest_size=8).digest()
        if h not in self._seen:
            self._seen.add(h)
            self.nontrivial += 1
        # a handful of samples, spread over the run
        if self.evals in (1, 2, 10, 100, 1000, 10000, 100000):
            self.samples.append(f"{self.group}: {ks}")
        self._cur = ks
        self._tick(ks)
        try:
            return fn(*args, **kw)
        except StopGroup:
            raise
        except Exception as e:  # noqa
            self._violate(ks, e)
            return None

    def _tick(self, ks):
        # leave a trace of the current case for the parent (hang report)
        if self.out is not None:
            now = time.time()
            if now - getattr(self, "_lt", 0) > 1:
                self._lt = now
                with open(self.out + ".cur", "w") as f:
                    f.write(ks)

    def _violate(self, ks, e):
        if isinstance(e, Violation):
            msg = str(e)
        else:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.relpath(t.filename, REPO)}:{t.lineno}"
                     for t in tb if t.filename.startswith(REPO)]
            msg = (f"{type(e).__name__}: {e} [in {where[-1] if where else 'check'}"
                   f"; {tb[-1].filename}:{tb[-1].lineno}]")
        kf = self.known(ks, msg)
        if kf is not None:
            self.notes.append(("known", kf))
            return
        self.violations.append(dict(group=self.group, case=ks, msg=msg[:2000],
                                    trace="".join(traceback.format_exception(e))[-4000:]))
        if len(self.violations) >= self.MAXV:
            raise StopGroup

    def known(self, ks, msg):
        for ent in KNOWN:
            if ent["property"] == self.pid and re.search(
                    ent["match"], f"{self.group}|{ks}|{msg}", re.S):
                return ent["id"]
        return None

    # -- bulk counters (vectorised lattices inside one case) --------------
    def bulk(self, n, nontrivial=None):
        self.evals += int(n)
        self.nontrivial += int(n if nontrivial is None else nontrivial)

    # -- explicit-state counters -----------------------------------------
    def state(self, s):
        """register a state; True if new"""
        h = hashlib.blake2b(repr(s).encode() if not isinstance(s, bytes) else s,
                            digest_size=10).digest()
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def addstates(self, n):
        self.nstates += int(n)

    def trans(self, n=1):
        self.transitions += int(n)

    def trace(self, n=1):
        self.traces += int(n)

    def outcome(self, o):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hashlib.blake2b(repr(o).encode(),
                                              digest_size=8).digest())

    def result(self):
        return dict(group=self.group, evals=self.evals,
                    nontrivial=self.nontrivial,
                    states=len(self.states) + self.nstates,
                    transitions=self.transitions, traces=self.traces,
                    outcomes=len(self.outcomes), samples=self.samples[:4],
                    violations=self.violations, notes=self.notes)


# -- assertions -----------------------------------------------------------
def fail(msg):
    raise Violation(msg)


def check(cond, msg="condition failed", *args):
    import numpy as np
    if not np.all(cond):
        raise Violation(msg % args if args else msg)


def _short(a):
    import numpy as np
    s = np.array2string(np.asarray(a), precision=8, threshold=24, edgeitems=4) \
        if not isinstance(a, (str, bytes, dict, list)) else repr(a)
    return s[:600]


def same(a, b, msg="values differ"):
    """exact equality incl. shape"""
    import numpy as np
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape:
        raise Violation(f"{msg}: shape {a_.shape}, expected {b_.shape}: "
                        f"got {_short(a)}, expected {_short(b)}")
    if not np.array_equal(a_, b_):
        raise Violation(f"{msg}: got {_short(a)}, expected {_short(b)}")


def close(a, b, atol=1e-9, rtol=1e-9, msg="values differ", where=None):
    """element-wise |a-b| <= atol + rtol*|b|; nan only equals nan"""
    import numpy as np
    a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a_.shape != b_.shape:
        raise Violation(f"{msg}: shape {a_.shape}, expected {b_.shape}: "
                        f"got {_short(a)}, expected {_short(b)}")
    with np.errstate(all="ignore"):
        ok = (np.abs(a_ - b_) <= atol + rtol * np.abs(b_)) | (a_ == b_) | \
             (np.isnan(a_) & np.isnan(b_))
    if where is not None:
        ok = ok | ~where
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        t = tuple(i)
        raise Violation(f"{msg}: at {t}: got {a_[t]!r}, expected {b_[t]!r} "
                        f"({np.sum(~ok)} of {ok.size} differ) "
                        f"got {_short(a_)}, expected {_short(b_)}")


def raises(excs, fn, *args, **kw):
    try:
        r = fn(*args, **kw)
    except excs as e:
        return e
    except Exception as e:
        raise Violation(f"raised {type(e).__name__}({e}), expected "
                        f"{excs}") from e
    raise Violation(f"returned {_short(r)}, expected an exception {excs}")


@contextlib.contextmanager
def scratch():
    """fresh directory, made the working directory, removed afterwards"""
    import shutil
    d = tempfile.mkdtemp(prefix="rtmc_")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def captured():
    """capture everything written to file descriptor 1"""
    sys.stdout.flush()
    t = tempfile.TemporaryFile()
    old = os.dup(1)
    os.dup2(t.fileno(), 1)
    box = {}
    try:
        yield box
    finally:
        sys.stdout.flush()
        os.dup2(old, 1)
        os.close(old)
        t.seek(0)
        box["out"] = t.read()
        t.close()


product = itertools.product


# -- driver ---------------------------------------------------------------
def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e.get("status") == "known":
                out.append(e)
    return out


KNOWN = []


def child(pid, tier, g, out, only):
    name, fn, args = g[0], g[1], g[2:]
    ctx = Ctx(pid, tier, name, only=only, out=out)
    err = None
    try:
        fn(ctx, *args)
    except StopGroup:
        pass
    except BaseException as e:  # harness-level error
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [t for t in tb if os.path.abspath(t.filename).startswith(REPO + "/")]
        # outside of a case: the library failed, or gave values a group cannot work with
        if isinstance(e, (Violation, ValueError, TypeError, LookupError, ArithmeticError)) or inrepo and isinstance(e, Exception):
            try:
                ctx._violate(ctx._cur or "set-up", e)
            except StopGroup:
                pass
        else:
            err = traceback.format_exc()
    r = ctx.result()
    r["error"] = err
    with open(out, "w") as f:
        json.dump(jsonable(r), f)


def main(pid, mod, meta, tier, seed, replay=None, jobs=None):
    global KNOWN
    KNOWN = load_known()
    t0 = time.time()
    limit = 780 if tier == "quick" else float(os.environ.get("RT_LIMIT", 6 * 3600))
    jobs = jobs or min(8, os.cpu_count() or 1)
    groups = mod.groups(tier)
    only = None
    if replay:
        rp = json.load(open(replay))
        only = rp["case"]
        groups = [g for g in mod.groups(rp["tier"]) if g[0] == rp["group"]]
    assert len({g[0] for g in groups}) == len(groups), "duplicate group names"
    work = tempfile.mkdtemp(prefix="rtmc_run_")
    pend = list(enumerate(groups))
    live = {}
    results, errors = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    while pend or live:
        while pend and len(live) < jobs:
            i, g = pend.pop(0)
            out = os.path.join(work, f"g{i}.json")
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    fd = os.open(os.path.join(work, f"g{i}.log"),
                                 os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    nul = os.open(os.devnull, os.O_RDONLY)
                    os.dup2(nul, 0)
                    sys.stdout = os.fdopen(1, "w", buffering=1, closefd=False)
                    sys.stderr = os.fdopen(2, "w", buffering=1, closefd=False)
                    import warnings
                    warnings.simplefilter("ignore")
                    child(pid, tier, g, out, only)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                sys.stdout.flush()
                os._exit(code)
            try:
                os.setpgid(p, p)
            except OSError:
                pass
            live[p] = (i, g, out, time.time())
        try:
            p, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            p = 0
        if p and p in live:
            i, g, out, ts = live.pop(p)
            try:
                os.killpg(p, signal.SIGKILL)  # stray workers of this group
            except OSError:
                pass
            try:
                r = json.load(open(out))
            except Exception:
                log = open(os.path.join(work, f"g{i}.log")).read()[-3000:]
                errors.append(f"group {g[0]} died (status {st}):\n{log}")
                continue
            r["wall"] = round(time.time() - ts, 2)
            results.append((i, r))
            if r["error"]:
                errors.append(f"group {g[0]}: {r['error']}")
            continue
        if time.time() - t0 > limit:
            for p, (i, g, out, ts) in live.items():
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(p, 0)
                cur = "?"
                if os.path.exists(out + ".cur"):
                    cur = open(out + ".cur").read()
                results.append((i, dict(
                    group=g[0], evals=0, nontrivial=0, states=0, transitions=0,
                    traces=0, outcomes=0, samples=[], notes=[], wall=limit,
                    error=None,
                    violations=[dict(group=g[0], case=cur, trace="",
                                     msg=f"no result within {limit:.0f} s "
                                         f"(near case {cur})")])))
            live = {}
            pend = []
        time.sleep(0.01)
    import shutil
    shutil.rmtree(work, ignore_errors=True)
    results.sort(key=lambda r: r[0])
    results = [r for _, r in results]
    viol = [v for r in results for v in r["violations"]]
    tot = collections.Counter()
    for r in results:
        for k in ("evals", "nontrivial", "states", "transitions", "traces",
                  "outcomes"):
            tot[k] += r[k]
    samples = []
    for r in results:
        samples += r["samples"][:2]
    if len(samples) > 24:
        samples = samples[::max(1, len(samples) // 24)]
    level = meta["level"]
    cov = dict(samples=samples, rule=mod.RULE,
               groups={r["group"]: dict(evaluations=r["evals"], states=r["states"],
                                        transitions=r["transitions"],
                                        wall_s=r["wall"]) for r in results})
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"],
                   evaluations=tot["evals"])
    else:
        cov.update(evaluations=tot["evals"],
                   distinct_nontrivial=tot["nontrivial"],
                   exhaustive=True)
        if tot["states"]:
            cov.update(states=tot["states"], transitions=tot["transitions"])
    if tot["outcomes"]:
        cov["distinct_outcomes"] = tot["outcomes"]
    if level == "model_checking":
        cov["exhaustive"] = True
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [meta["note"]],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    known = sorted({n[1] for r in results for n in r["notes"] if n[0] == "known"})
    for k in KNOWN:
        if k["id"] in known:
            print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    print(f"{pid} {tier}: evaluations={tot['evals']} distinct={tot['nontrivial']} "
          f"states={tot['states']} transitions={tot['transitions']} "
          f"traces={tot['traces']} outcomes={tot['outcomes']} "
          f"violations={len(viol)} wall={ev['wall_s']}s")
    if viol:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for n, v in enumerate(viol[:10]):
            path = os.path.join("replay", f"{pid}_{tier}_{n}.json")
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump(dict(property=pid, tier=tier, group=v["group"],
                               case=v["case"], message=v["msg"],
                               trace=v["trace"],
                               how=f"python3 run.py {pid} --replay {path}"),
                          f, indent=1)
            print(f"  {v['group']} case {v['case'][:300]}: {v['msg'][:500]}")
            if n == 0:
                print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    if replay:
        print("replayed: no violation")
    return 0
