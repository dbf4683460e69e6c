"""
Explorer shared by all the checks.

A property module provides

    ID, TITLE
    BOUNDS[tier]      text: the space that is enumerated completely
    ASSUMPTIONS       list of text
    cases(tier)       generator of JSON-able cases, simplest first
    run(case, ctx)    executes one case on the real code against the oracle

``cases`` is a deterministic enumeration of *every* element of the bounded
space (histories, configurations, files ...); nothing is sampled.  ``run``
raises Violation (through ``ctx``) when implementation and oracle disagree.
"""

import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 240


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class CaseTimeout(Exception):
    pass


def _jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return repr(x)
        return _jsonable(x.tolist())
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)


def h64(obj):
    s = obj if isinstance(obj, bytes) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")


class Ctx:
    """Counters and oracle helpers handed to a property's ``run``."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.compared = 0
        self.skipped = 0
        self._tmp = None

    # -- coverage
    def state(self, key):
        self.states.add(h64(key))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(h64(key))

    def skip(self, n=1):
        self.skipped += n

    # -- oracle
    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, cond, msg, **detail):
        self.compared += 1
        if not cond:
            raise Violation(msg, **detail)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, **detail):
        """shape and element-wise agreement (NaN never agrees)"""
        import numpy as np

        self.compared += 1
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            ok = g.shape == w.shape
            if ok and w.size:
                with np.errstate(all="ignore"):
                    d = np.abs(g - w)
                    ok = bool(np.all(d <= atol + rtol * np.abs(w)))
        except (TypeError, ValueError) as e:
            raise Violation(f"{msg}: {e}", got=got, want=want, **detail)
        if not ok:
            raise Violation(msg, got=got, want=want, **detail)

    def equal(self, got, want, msg, **detail):
        """bit-for-bit agreement of arrays / equality of other objects"""
        import numpy as np

        self.compared += 1
        if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
            ok = np.array_equal(np.asarray(got), np.asarray(want))
        else:
            ok = got == want
        if not ok:
            raise Violation(msg, got=got, want=want, **detail)

    def raises(self, fn, msg, exc=Exception, **detail):
        self.compared += 1
        try:
            r = fn()
        except (Violation, CaseTimeout):
            raise
        except exc:
            return
        except Exception as e:
            raise Violation(f"{msg}: unexpected {type(e).__name__}: {e}", **detail)
        raise Violation(f"{msg}: accepted", got=r, **detail)

    def tmpdir(self):
        if self._tmp is None:
            base = "/dev/shm" if os.path.isdir("/dev/shm") else None
            self._tmp = tempfile.mkdtemp(prefix="mc_", dir=base)
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, ctx):
    """Returns None or a violation record."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with quiet():
            mod.run(case, ctx)
        return None
    except Violation as v:
        return {"msg": v.msg, "detail": _jsonable(v.detail)}
    except CaseTimeout:
        return {"msg": "no answer: the case did not finish", "detail": {}}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        return {
            "msg": f"unexpected {type(e).__name__}: {e}",
            "detail": {"traceback": traceback.format_exc()[-3000:]},
        }
    finally:
        signal.alarm(0)


def _signature(case):
    return json.dumps(_jsonable(case), sort_keys=True)


def load_findings(pid):
    """known (unrepaired) findings: {case signature: text}"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            if not line.startswith("finding:"):
                continue
            head, _, rest = line.partition(" case=")
            if f"property={pid}" not in head.split():
                continue
            sig, _, text = rest.strip().partition(" :: ")
            out[sig] = text
    return out


def _setup_process():
    import numpy as np

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")


def _worker(mod_name, tier, w, nproc, q, stop, block):
    try:
        _setup_process()
        mod = importlib.import_module(mod_name)
        ctx = Ctx(tier)
        found, known, samples = [], [], []
        findings = load_findings(mod.ID)
        n = 0
        total = 0
        first = []
        for i, case in enumerate(mod.cases(tier)):
            total = i + 1
            if (i // block) % nproc != w:
                continue
            if stop.is_set():
                break
            v = run_case(mod, case, ctx)
            n += 1
            if len(first) < 5:
                first.append((i, case))
            if i in (0, 1, 7, 63, 511, 4095):
                samples.append({"case": _jsonable(case)})
            if v is not None:
                sig = _signature(case)
                if sig in findings:
                    known.append((sig, findings[sig]))
                    continue
                v.update(index=i, case=_jsonable(case))
                found.append(v)
                stop.set()
                break
        # the same cases again, now at the end of a long history in this
        # process: hidden process-wide state must not change the verdict
        if not found and not stop.is_set():
            for i, case in first:
                v = run_case(mod, case, ctx)
                if v is not None and _signature(case) not in findings:
                    v.update(index=i, case=_jsonable(case))
                    v["msg"] += " (second evaluation in one process)"
                    v["warm"] = True
                    found.append(v)
                    stop.set()
                    break
        ctx.cleanup()
        q.put(
            dict(
                w=w,
                n=n,
                total=total,
                states=ctx.states,
                outcomes=ctx.outcomes,
                transitions=ctx.transitions,
                traces=ctx.traces,
                compared=ctx.compared,
                skipped=ctx.skipped,
                found=found,
                known=known,
                samples=samples,
            )
        )
    except BaseException:
        # outside run_case: building the space of cases on the real code failed
        q.put(dict(w=w, error=traceback.format_exc()))


def explore(mod_name, tier, seed, nproc=None):
    t0 = time.time()
    mod = importlib.import_module(mod_name)
    pid = mod.ID
    nproc = nproc or int(os.environ.get("VERIF_PROCS", "0")) or min(
        8, os.cpu_count() or 1
    )
    block = getattr(mod, "BLOCK", 1)
    ctxm = mp.get_context("fork")
    q = ctxm.Queue()
    stop = ctxm.Event()
    procs = [
        ctxm.Process(
            target=_worker, args=(mod_name, tier, w, nproc, q, stop, block)
        )
        for w in range(nproc)
    ]
    for p in procs:
        p.start()
    results = {}
    dead_since = {}
    while len(results) < nproc:
        try:
            r = q.get(timeout=2)
            results[r["w"]] = r
        except Exception:
            for w, p in enumerate(procs):
                if w not in results and not p.is_alive():
                    dead_since.setdefault(w, time.time())
                    if time.time() - dead_since[w] > 10:
                        results[w] = dict(
                            w=w, died=f"worker ended with code {p.exitcode}"
                        )
    for p in procs:
        p.join(timeout=10)

    found, known, samples = [], {}, []
    states, outcomes = set(), set()
    tot = dict(transitions=0, traces=0, compared=0, skipped=0, n=0)
    total = 0
    for w in range(nproc):
        r = results[w]
        if "error" in r:
            sys.stderr.write(r["error"])
            found.append(
                {"index": 10**12, "case": None, "msg": "the explorer stopped", "detail": {"traceback": r["error"][-3000:]}}
            )
            continue
        if "died" in r:
            found.append(
                {"index": 10**12, "case": None, "msg": r["died"], "detail": {}}
            )
            continue
        found += r["found"]
        for sig, text in r["known"]:
            known[sig] = text
        samples += r["samples"]
        states |= r["states"]
        outcomes |= r["outcomes"]
        total = max(total, r["total"])
        for k in tot:
            tot[k] += r[k]
    found.sort(key=lambda v: v["index"])
    complete = not found and tot["n"] == total
    wall = time.time() - t0

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "samples": samples[:8],
            "exhaustive": bool(complete),
            "cases_in_space": total,
            "cases_run": tot["n"],
            "comparisons": tot["compared"],
            "distinct_outcomes": len(outcomes),
            "outside_domain": tot["skipped"],
            "bounds": mod.BOUNDS[tier],
            "known_findings_seen": len(known),
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 3),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for sig, text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={pid} {text} [case {sig}]")
    if found:
        v = found[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(
            VERIF, "replays", f"{pid}-{h64(_signature(v['case'])):016x}.json"
        )
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "module": mod_name, "tier": tier, **v},
                f,
                indent=1,
            )
        print(f"case: {json.dumps(v['case'])[:2000]}")
        print(f"what: {v['msg']}")
        d = json.dumps(v["detail"], indent=1)
        print(d if len(d) < 6000 else d[:6000] + " ...")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(
        f"{pid} [{tier}] held: {tot['n']} cases, {len(states)} states, "
        f"{tot['transitions']} transitions, {tot['traces']} traces, "
        f"{tot['compared']} comparisons, {len(outcomes)} distinct outcomes, "
        f"{tot['skipped']} outside the domain, {wall:.1f} s"
    )
    return 0
