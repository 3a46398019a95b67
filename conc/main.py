"""Concrete side: runs the real code of /repo on enumerated and random inputs and compares it with the
same specification (in executable form).  It serves three purposes: replaying and searching failing inputs for
refuted obligations, the bounded stand-in for functions outside the verified subset, and a cross-check of the
specification and the verifier against CPython.

  python conc/main.py P01 --tier quick --seed 1 --out out.json
  python conc/main.py P01 --replay replay.json
"""
import sys, os, json, time, argparse, importlib, random, traceback, itertools, logging, signal

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
import warnings
warnings.filterwarnings("ignore")


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def timed(mod, inp, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.check(inp)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_case(mod, inp, limit):
    """None or a description of the violation"""
    try:
        return timed(mod, inp, limit)
    except CaseTimeout:
        if not getattr(mod, "TERMINATION", True):
            return None
        try:
            return timed(mod, inp, 2 * limit)
        except CaseTimeout:
            return f"the code under test did not finish within {2 * limit} s"
    except Exception as e:
        r = crash(e)
        if r:
            return r
        raise


def harness_names():
    if not _names:
        import ast, glob
        for f in glob.glob(os.path.join(HERE, "*.py")):
            for n in ast.walk(ast.parse(open(f).read())):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    _names.add(n.name)
        _names.add("<lambda>")
    return _names


_names = set()


def crash(e):
    """description of an unexpected exception raised inside the code under test by a valid input; None if the harness may be to blame
    (the exception comes from the harness itself, or is about an object of the harness)"""
    if isinstance(e, (MemoryError, Skip)) or type(e).__name__ == "Skip":
        return None
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append((os.path.abspath(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    last = max([i for i, f in enumerate(files) if f[0].startswith(HERE + os.sep)], default=-1)
    code = [f for f in files[last + 1:] if f[0].startswith(os.path.abspath(REPO) + os.sep)]
    if not code:
        return None
    import re
    if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        quals = [q.split(".") for q in re.findall(r"([\w.<>]+)\(\)", str(e))] + [[q] for q in re.findall(r"'(\w+)' object", str(e))]
        if any(q[0] in harness_names() for q in quals):
            return None
    o = getattr(e, "obj", None)
    m = sys.modules.get(type(o).__module__)
    if o is not None and os.path.abspath(getattr(m, "__file__", None) or "/").startswith(HERE + os.sep):
        return None
    f = code[-1]
    return f"{type(e).__name__}: {str(e)[:200]} (raised from {os.path.relpath(f[0], REPO)}, {f[1]})"


def worker(pid, tier, seed, w, n, budget, q):
    import torch
    torch.set_num_threads(1)
    t0, c0 = time.time(), time.process_time()
    res = {"evals": 0, "distinct": 0, "samples": [], "violations": [], "errors": [], "exhausted": True, "skipped": 0, "known": {}}
    mod = importlib.import_module(pid.lower())
    seen = set()
    limit = getattr(mod, "CASE_LIMIT", 15)
    known = known_matches(pid)
    try:
        rng = random.Random(seed * 7919 + 13)
        for i, inp in enumerate(mod.cases(rng, tier)):
            if i % n != w:
                continue
            if time.process_time() - c0 > budget or time.time() - t0 > 3 * budget:  # processor time: a loaded machine explores as much
                res["exhausted"] = False
                break
            try:
                v = run_case(mod, inp, limit)
            except Skip as e:
                res["skipped"] += 1
                if len(res["errors"]) < 3:
                    res["errors"].append(f"skipped: {e}")
                continue
            except Exception as e:
                res["skipped"] += 1
                if len(res["errors"]) < 3:
                    res["errors"].append("harness error: " + traceback.format_exc()[-800:] + " on " + json.dumps(inp, default=str)[:300])
                continue
            res["evals"] += 1
            key = json.dumps(inp, default=str, sort_keys=True)
            if mod.nontrivial(inp) if hasattr(mod, "nontrivial") else True:
                seen.add(hash(key))
            if len(res["samples"]) < 2 and i > 3:
                res["samples"].append(json.loads(key))
            if v:
                k = next((k for k in known if k in v), None)
                if k:
                    res["known"].setdefault(k, {"what": v, "input": inp})
                    continue
                res["violations"].append({"what": v, "input": inp})
                if len(res["violations"]) >= 3:
                    break
    except Exception:
        res["errors"].append("generator error: " + traceback.format_exc()[-800:])
    res["distinct"] = len(seen)
    res["kinds"] = getattr(mod, "KINDS", {})
    q.put(res)


def known_matches(pid):
    p = os.path.join(os.path.dirname(HERE), "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k["match"] for k in json.load(open(p))["findings"] if k["property"] == pid]


class Skip(Exception):
    """the harness cannot exercise this tree (renamed internals and the like)"""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--workers", type=int, default=5)
    ap.add_argument("--budget", type=float, default=25)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        mod = importlib.import_module(a.pid.lower())
        d = json.load(open(a.replay))
        inp = d.get("input", d)
        v = run_case(mod, inp, 60)
        print("VIOLATED: " + v if v else "holds")
        sys.exit(1 if v else 0)
    t0 = time.time()
    import multiprocessing as mp
    out = {"evals": 0, "distinct": 0, "samples": [], "violations": [], "errors": [], "exhausted": True, "skipped": 0}
    try:
        mod = importlib.import_module(a.pid.lower())
    except Exception:
        out["errors"].append("import error: " + traceback.format_exc()[-1500:])
        out["exhausted"] = False
        json.dump(out, open(a.out, "w"))
        return
    out["known"] = {}
    out["rule"] = getattr(mod, "RULE", mod.__doc__ or "")
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    n = a.workers if not getattr(mod, "SINGLE", False) else 1
    ps = [ctx.Process(target=worker, args=(a.pid, a.tier, a.seed, w, n, a.budget, q)) for w in range(n)]
    for p in ps:
        p.start()
    got = 0
    end = time.time() + 3 * a.budget + 120
    while got < n and time.time() < end:
        try:
            r = q.get(timeout=1)
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
            continue
        got += 1
        for k in ("evals", "distinct", "skipped"):
            out[k] += r[k]
        out["samples"] += r["samples"]
        for k, v in r["known"].items():
            out["known"].setdefault(k, v)
        out["violations"] += r["violations"]
        out["errors"] += r["errors"]
        out["exhausted"] &= r["exhausted"]
    if got < n:
        out["errors"].append(f"{n - got} worker(s) gave no result")
        out["exhausted"] = False
    for p in ps:
        if p.is_alive():
            p.kill()
    out["samples"] = out["samples"][:3]
    out["errors"] = out["errors"][:6]
    # smallest failing input first
    out["violations"].sort(key=lambda v: len(json.dumps(v["input"], default=str)))
    out["violations"] = out["violations"][:5]
    out["wall"] = time.time() - t0
    json.dump(out, open(a.out, "w"), default=str)


if __name__ == "__main__":
    sys.modules["main"] = sys.modules["__main__"]
    main()
