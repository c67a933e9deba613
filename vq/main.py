import importlib, json, os, signal, sys, tempfile, time, atexit, shutil


def main():
    _tmp = tempfile.mkdtemp(prefix="vq-mpl-")
    pid0 = os.getpid()
    atexit.register(lambda: os.getpid() == pid0 and shutil.rmtree(_tmp, ignore_errors=True))
    os.environ["MPLCONFIGDIR"] = _tmp
    os.environ["VQ_TMP"] = _tmp
    import glob
    for f in glob.glob("/opt/vp/mplconfig/fontlist*.json"):      # only read there; saves the font scan
        shutil.copy(f, _tmp)
    from . import core
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    pid = sys.argv[1]
    if pid == "--selftest":                                     # setup: everything imports, offline
        import pyqlaw
        for i in range(1, 28):
            importlib.import_module(f"vq.props.c{i:02d}")
        print("imports", pyqlaw.__file__, "hypothesis", core.hypothesis.__version__)
        return 0
    mod = importlib.import_module("vq.props." + pid.lower())
    import pyqlaw
    root = os.path.realpath(core.REPO) + os.sep
    if not os.path.realpath(pyqlaw.__file__).startswith(root):
        print(f"pyqlaw was imported from {pyqlaw.__file__}", file=sys.stderr)
        return 2
    replay = sys.argv[3] if len(sys.argv) > 2 and sys.argv[2] == "--replay" else None
    tier = sys.argv[2] if len(sys.argv) > 2 and not replay else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("VQ_SUB")
    if only:
        mod.SUBS = [s for s in mod.SUBS if s.name in only.split(",")]
    # the work is done in a child, so that code under test that crashes the interpreter is reported, not suffered
    log = os.path.join(_tmp, "warm.json")
    sys.stdout.flush(); sys.stderr.flush()
    child = os.fork()
    if child == 0:
        rc = 2
        try:
            if replay:
                for f in (log, log + ".sub"): open(f, "w").close()
                rc = do_replay(core, pid, mod, replay)
            else:
                results, wall = core.run_property(pid, mod, tier, seed, warm_log=log)
                rc = core.report(pid, mod, results, wall, tier, seed)
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush(); sys.stderr.flush()
            os._exit(rc)
    stuck = False
    while True:
        done, st = os.waitpid(child, os.WNOHANG)
        if done: break
        time.sleep(0.02)
        if not stuck and os.path.exists(log + ".sub") and core.blocked(log):
            stuck = True
            os.kill(child, signal.SIGKILL)
    if os.WIFEXITED(st):
        return os.WEXITSTATUS(st)
    sig = os.WTERMSIG(st)
    if stuck or sig in core.CRASH:
        msg = f"does not stop: still running after {core.CASE_LIMIT} s" if stuck else f"the code under test crashed the interpreter (signal {sig})"
        if replay:
            print(f"{pid}: {msg}"); print(f"VIOLATION property={pid} replay={os.path.abspath(replay)}")
            return 1
        if os.path.exists(log) and os.path.exists(log + ".sub"):
            r = dict(sub=open(log + ".sub").read(), n=1, nontrivial=set(), labels=core.Counter(), samples=[], error=None,
                     violation=dict(case=json.load(open(log)), msg=msg))
            return core.report(pid, mod, [r], 0.0, tier, seed)
    print(f"{pid}: worker ended by signal {sig}", file=sys.stderr)
    return 2


def do_replay(core, pid, mod, path):
    d = json.load(open(path))
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    core.start_clock(None)
    try:
        core.run_case(sub, d["case"])
    except (core.Violation, core.Stuck) as v:
        print(f"{pid}/{sub.name}: {v}")
        print(f"VIOLATION property={pid} replay={os.path.abspath(path)}")
        return 1
    print("replayed case holds")
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    sys.exit(rc)
