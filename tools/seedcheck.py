"""development helper: validates planted bugs in scratch copies and runs the property's check against them
   python3 tools/seedcheck.py [ids...] [--all-props]"""
import sys, os, json, subprocess, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
ENV.pop("PYTHONPATH", None)


def sh(cmd, cwd, timeout=600, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout + p.stderr


def one(sid, tests=True):
    d = os.path.join(V, "seeded", sid)
    w = f"/tmp/seed-{sid}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    dd = f"/tmp/seeddemo-{sid}"
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(d, dd)
    os.remove(dd + "/patch.diff"); os.remove(dd + "/meta.json")
    r = {"id": sid}
    try:
        r["demo_clean"], o1 = sh(f"bash {dd}/demo.sh", w, 300)
        rc, o = sh(f"git apply {d}/patch.diff", w)
        if rc:
            return {**r, "error": "patch does not apply: " + o[-300:]}
        r["demo_patched"], o2 = sh(f"bash {dd}/demo.sh", w, 300)
        if r["demo_clean"]:
            r["out"] = o1[-400:]
        if tests:
            rc, o = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize --randomly-seed=0 --timeout=120 2>&1 | tail -8", w, 900)
            r["tests"] = o.strip().split("\n")[-1]
            if "failed" in o:
                r["failed"] = o[-600:]
        pid = json.load(open(d + "/meta.json"))["property"]
        out = f"/tmp/seedout-{sid}"
        rc, o = sh(f"python3-vt {V}/run.py {pid}", V, 900, dict(ENV, VERIF_REPO=w, VERIF_OUT=out))
        r["check"] = f"{pid} rc={rc}"
        r["checkout"] = o.strip()[-700:]
        shutil.rmtree(out, ignore_errors=True)
        return r
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(dd, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda s: one(s, "--no-tests" not in sys.argv), ids):
            ok = r.get("demo_clean") == 0 and r.get("demo_patched", 0) != 0 and "failed" not in r
            print(("OK  " if ok else "BAD ") + ("CAUGHT " if "rc=1" in r.get("check", "") else "MISSED "), json.dumps({k: v for k, v in r.items() if k != "checkout"}))
            if "-v" in sys.argv or "--v" in sys.argv or "rc=1" not in r.get("check", ""):
                print("     " + r.get("checkout", "").replace("\n", "\n     "))
