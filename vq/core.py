"""Engine: runs generated-input sub-checks of one property, shards them over processes, shrinks and reports."""
import hashlib, json, os, sys, time, traceback, signal, math
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

REPO = os.environ.get("VQ_REPO", "/repo")            # checks registered in MANIFEST never set VQ_REPO
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)                           # at the end: only what /opt/venv lacks (hypothesis)

import numpy as np
import hypothesis
from hypothesis import strategies as st, settings, given, Phase, HealthCheck
import hypothesis.internal.conjecture.engine as _eng
if hasattr(_eng, "MAX_SHRINKING_SECONDS"):
    _eng.MAX_SHRINKING_SECONDS = 45


class Violation(AssertionError):
    """The property is broken by the code under test."""


class StepLimit(Exception):
    """Raised by harness-supplied callbacks when the code under test loops far beyond any legitimate bound."""


class Skip(BaseException):
    """This case cannot be judged (it is legitimately far longer than planned)."""


class Inconclusive(KeyboardInterrupt):
    """Time budget exhausted: neither held nor broken. Not an Exception, so that nothing retries it."""


class Stuck(KeyboardInterrupt):
    """One case has been running for CASE_LIMIT seconds (cases take milliseconds to a few seconds)."""


CASE_LIMIT = 200
_clock = dict(case=None, end=None)


def _alarm(sig, frm):
    now = time.time()
    if _clock["case"] is not None and now - _clock["case"] > CASE_LIMIT:
        raise Stuck(f"still running after {CASE_LIMIT} s")
    if _clock["end"] is not None and now > _clock["end"]:
        raise Inconclusive("time budget of the check is used up")


def start_clock(budget):
    _clock.update(case=None, end=time.time() + budget if budget else None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)


def stop_clock():
    signal.setitimer(signal.ITIMER_REAL, 0)
    _clock.update(case=None, end=None)


def api(name, fn, *a, **k):
    """Call the code under test; any exception it lets escape is a violation of the calling property."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except StepLimit as e:
        raise Violation(f"{name} did not stop: {e}")
    except Exception as e:
        raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]}")


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def arr(name, x, shape):
    """Validate an output's shape and return it as a float array."""
    try:
        y = np.array(x, dtype=float)
    except Exception as e:
        raise Violation(f"{name} is not numeric: {type(x).__name__} ({e})")
    need(y.shape == tuple(shape), lambda: f"{name} has shape {y.shape}, expected {tuple(shape)}")
    return y


def close(name, got, want, rtol=1e-9, atol=1e-12):
    got = np.asarray(got, float); want = np.asarray(want, float)
    need(got.shape == want.shape, lambda: f"{name}: shape {got.shape} != {want.shape}")
    ok = np.abs(got - want) <= atol + rtol * np.abs(want)
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    need(bool(np.all(ok | same)), lambda: f"{name}: got {got.tolist()}, want {want.tolist()} (rtol={rtol}, atol={atol})")


@dataclass
class Rec:
    labels: Counter = field(default_factory=Counter)
    interesting: bool = False

    def label(self, *names):
        for n in names:
            self.labels[n] += 1

    def nontrivial(self, cond=True):
        self.interesting = self.interesting or bool(cond)


@dataclass
class Sub:
    name: str
    strategy: Any
    fn: Callable
    quick: int
    thorough: int
    warm: int = 2                 # cases run in the parent, before forking, to compile what is shared
    max_shards: int = 8


def _innermost_in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case):
    """Run one case directly. Returns Rec; raises Violation, or another exception on harness error."""
    rec = Rec()
    _clock["case"] = time.time()
    try:
        sub.fn(case, rec)
    except Violation:
        raise
    except Skip as e:
        rec = Rec(); rec.label(f"not judged: {e}")
    except StepLimit as e:
        raise Violation(f"did not stop: {e}")
    except (hypothesis.errors.StopTest, hypothesis.errors.UnsatisfiedAssumption):
        raise
    except Exception as e:
        if _innermost_in_repo(e.__traceback__):
            raise Violation(f"unexpected {type(e).__name__} from the code under test: {str(e)[:300]}")
        if isinstance(e, AttributeError) and (getattr(e.obj, "__name__", "") or type(e.obj).__module__).split(".")[0] == "pyqlaw":
            raise Violation(f"part of the public interface is missing: {e}")
        raise
    finally:
        _clock["case"] = None
    return rec


def run_shard(sub, n, seed, log=None):
    """Returns dict(result) for n generated cases of a sub-check."""
    out = dict(sub=sub.name, n=0, nontrivial=set(), labels=Counter(), samples=[], violation=None, error=None)
    last = {}

    def body(case):
        out["n"] += 1
        if log:
            with open(log, "w") as f: f.write(json.dumps(case, default=_enc))
        try:
            rec = run_case(sub, case)
        except Violation as v:
            last["case"], last["msg"] = case, str(v)
            raise
        except Stuck as e:
            out["violation"] = dict(case=case, msg=f"does not stop: {e}")
            raise
        out["labels"].update(rec.labels)
        if rec.interesting:
            s = json.dumps(case, sort_keys=True, default=str)
            h = hashlib.blake2b(s.encode(), digest_size=8).digest()
            if h not in out["nontrivial"]:
                out["nontrivial"].add(h)
                if len(out["samples"]) < 2 and len(s) < 3000:
                    out["samples"].append(case)

    test = given(sub.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                           HealthCheck.large_base_example])(test)
    try:
        test()
    except Violation:
        out["violation"] = dict(case=last["case"], msg=last["msg"])
    except Stuck:
        pass
    except Inconclusive as e:
        if last: out["violation"] = dict(case=last["case"], msg=last["msg"])      # found, not fully shrunk
        else: out["error"] = f"inconclusive: {e}"
    except BaseException as e:
        if last and isinstance(e, (hypothesis.errors.Flaky, BaseExceptionGroup)):
            # the violation was observed but did not repeat identically: the tested code keeps state between cases
            out["violation"] = dict(case=last["case"], msg=last["msg"] + " [did not repeat identically]")
        elif isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        else:
            out["error"] = "".join(traceback.format_exception(e))[-3000:]
    return out


_SUBS = None
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def _work(item, log=None):
    i, n, seed, budget = item
    start_clock(budget)
    try:
        return run_shard(_SUBS[i], n, seed, log)
    finally:
        stop_clock()


def _child(conn, item, log):
    try:
        r = _work(item, log)
    except BaseException as e:
        r = dict(sub=_SUBS[item[0]].name, n=0, nontrivial=set(), labels=Counter(), samples=[], violation=None,
                 error="".join(traceback.format_exception(e))[-3000:])
    conn.send(r)
    conn.close()
    os._exit(0)


def _run_tasks(items, procs):
    """one forked process per task; each notes the case it is about to run, so that a task whose process the code
    under test crashes, or blocks where no signal handler runs, is reported with that case"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    todo = [(it, os.path.join(os.environ.get("VQ_TMP", "/tmp"), f"shard-{it[0]}-{it[2]}.json")) for it in items]
    running = {}                       # connection -> (process, item, log)
    def lost(it, log, msg):
        out = dict(sub=_SUBS[it[0]].name, n=0, nontrivial=set(), labels=Counter(), samples=[], violation=None, error=None)
        case = noted(log)
        if case is not None: out["violation"] = dict(case=case, msg=msg)
        else: out["error"] = msg
        return out
    try:
        while todo or running:
            while todo and len(running) < procs:
                it, log = todo.pop(0)
                a, b = ctx.Pipe(duplex=False)
                pr = ctx.Process(target=_child, args=(b, it, log))
                sys.stdout.flush(); sys.stderr.flush()
                pr.start(); b.close()
                running[a] = (pr, it, log)
            for conn in wait(list(running), timeout=10):
                pr, it, log = running.pop(conn)
                try:
                    r = conn.recv()
                except EOFError:
                    r = None
                conn.close(); pr.join()
                code = -(pr.exitcode or 0)
                if r is not None:
                    yield r
                elif code in CRASH:
                    yield lost(it, log, f"the code under test crashed the interpreter (signal {code})")
                else:
                    yield lost(it, "", f"worker ended with exit code {pr.exitcode}")
            for conn, (pr, it, log) in list(running.items()):
                if blocked(log):
                    pr.kill(); pr.join(); conn.close(); del running[conn]
                    yield lost(it, log, f"does not stop: still running after {CASE_LIMIT} s")
    finally:
        for pr, _, _ in running.values():
            pr.kill()
        for pr, _, _ in running.values():
            pr.join()


def noted(log):
    try:
        with open(log) as f: return json.load(f)
    except (OSError, ValueError):
        return None


def blocked(log):
    """True if the case noted in the file has been running far beyond the limit that the process itself enforces"""
    try:
        return time.time() - os.stat(log).st_mtime > CASE_LIMIT + 30
    except OSError:
        return False


def run_property(pid, mod, tier, seed, procs=int(os.environ.get("VQ_PROCS", "8")), warm_log=None):
    global _SUBS
    t0 = time.time()
    subs = mod.SUBS
    _SUBS = subs
    budget = 600 if tier == "quick" else 7200
    results = []
    # warm-up in the parent compiles the jitted functions once; the cases count like any others
    for i, s in enumerate(subs):
        if warm_log:
            with open(warm_log + ".sub", "w") as f: f.write(s.name)
        start_clock(budget)
        r = run_shard(s, s.warm, seed * 7919 + i, warm_log)
        stop_clock()
        results.append(r)
        if r["violation"] or r["error"]:
            break
    if warm_log and os.path.exists(warm_log + ".sub"): os.unlink(warm_log + ".sub")
    if not any(r["violation"] or r["error"] for r in results):
        items = []
        for i, s in enumerate(subs):
            n = s.quick if tier == "quick" else s.thorough
            k = max(1, min(s.max_shards, procs, n // 4))
            for j in range(k):
                items.append((i, n // k + (1 if j < n % k else 0), (seed * 1000003 + i * 1009 + j + 1) % (2**62), budget))
        for r in _run_tasks(items, procs):
            results.append(r)
            if r["violation"]:
                break
    return results, time.time() - t0


def report(pid, mod, results, wall, tier, seed):
    viol = next((r for r in results if r["violation"]), None)
    errs = [r for r in results if r["error"]]
    bysub = {}
    labels = {}
    for r in results:
        b = bysub.setdefault(r["sub"], dict(evaluations=0, nt=set(), samples=[]))
        b["evaluations"] += r["n"]; b["nt"] |= r["nontrivial"]
        if len(b["samples"]) < 2:
            b["samples"] += r["samples"][: 2 - len(b["samples"])]
        labels.setdefault(r["sub"], Counter()).update(r["labels"])
    cov = dict(
        evaluations=sum(b["evaluations"] for b in bysub.values()),
        distinct_nontrivial=sum(len(b["nt"]) for b in bysub.values()),
        rule=mod.RULE,
        samples=[dict(sub=k, case=c) for k, b in bysub.items() for c in b["samples"]],
        per_subcheck={k: dict(evaluations=b["evaluations"], distinct_nontrivial=len(b["nt"]),
                              labels=dict(sorted(labels[k].items()))) for k, b in bysub.items()},
    )
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_enc)
    if viol:
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{viol['sub']}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=viol["sub"], case=viol["violation"]["case"], message=viol["violation"]["msg"]),
                      f, indent=1, default=_enc)
        print(f"{pid}/{viol['sub']}: {viol['violation']['msg'][:1500]}")
        print(f"case: {json.dumps(viol['violation']['case'], default=_enc)[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errs:
        for r in errs[:3]:
            print(f"ERROR in {pid}/{r['sub']}:\n{r['error']}", file=sys.stderr)
        return 2
    # a check that silently tests little is broken, not quiet
    for k, b in bysub.items():
        if len(b["nt"]) == 0:
            print(f"ERROR {pid}/{k}: no non-trivial case in {b['evaluations']}", file=sys.stderr)
            return 2
    print(f"{pid} {tier} seed={seed}: held on {cov['evaluations']} cases "
          f"({cov['distinct_nontrivial']} distinct non-trivial), {wall:.1f}s")
    return 0


def _enc(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)
