"""Driver of the checks:  python3-vt /verif/run.py P01 [--tier quick|thorough]

1. generates the proof obligations of the property from /repo's current source and discharges them,
2. runs the real code against the executable form of the same specification (replay / bounded stand-in),
3. decides, writes evidence/<id>.json and prints the verdict.
"""
import argparse, json, os, subprocess, sys, time, multiprocessing as mp, hashlib, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(HERE, "evidence"))
VENV = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def _unit(args):
    pid, i, quick, cross = args
    from contracts import registry
    us = registry.units(pid)
    return us[i].run(quick, cross)


def _proc(conn, args):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        conn.send(_unit(args))
    except BaseException as e:
        conn.send({"unit": f"unit {args[1]}", "functions": [], "results": [], "error": f"verifier error: {type(e).__name__}: {e}", "used": [], "inlined": [], "assumed": [], "approx": False})
    conn.close()


def run_units(pid, names, quick, cross, limit, procs):
    """each unit in its own process, with a time limit"""
    todo = list(range(len(names)))
    live, out = [], [None] * len(names)
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_proc, args=(b, (pid, i, quick, cross)))
            p.start()
            b.close()
            live.append((i, p, a, time.time()))
        nxt = []
        for i, p, a, t in live:
            if a.poll(0.02):
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = None
                p.join(5)
            elif not p.is_alive():
                out[i] = out[i]
            elif time.time() - t > limit:
                p.kill()
                out[i] = {"unit": names[i], "functions": [], "results": [], "error": f"time limit of {limit} s", "used": [], "inlined": [], "assumed": [], "approx": False}
            else:
                nxt.append((i, p, a, t))
                continue
            if out[i] is None:
                out[i] = {"unit": names[i], "functions": [], "results": [], "error": "verifier process ended", "used": [], "inlined": [], "assumed": [], "approx": False}
        live = nxt
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-conc", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    quick = a.tier == "quick"
    from contracts import registry
    info = registry.PROPS[a.pid]
    names = [u.name for u in registry.units(a.pid)]
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)

    # concrete side in the background
    cout = os.path.join(OUT, f".conc-{a.pid}-{os.getpid()}.json")
    conc = None
    if os.path.exists(cout):
        os.unlink(cout)
    if not a.no_conc and os.path.exists(os.path.join(HERE, "conc", a.pid.lower() + ".py")):
        budget = info.get("budget", 45) if quick else 420
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", VERIF_REPO=REPO)
        conc = subprocess.Popen([VENV, os.path.join(HERE, "conc", "main.py"), a.pid, "--tier", a.tier, "--seed", str(a.seed), "--out", cout,
                                 "--budget", str(budget), "--workers", "5" if names else "8"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, cwd="/tmp")
    reps = run_units(a.pid, names, quick, not quick, 240 if quick else 1500, 4)
    cres = {"evals": 0, "distinct": 0, "samples": [], "violations": [], "errors": [], "exhausted": False, "skipped": 0, "rule": ""}
    if conc:
        try:
            err = conc.communicate(timeout=(300 if quick else 1500))[1]
        except subprocess.TimeoutExpired:
            os.killpg(conc.pid, signal.SIGKILL)
            err = b"time limit"
        if os.path.exists(cout):
            cres = json.load(open(cout))
            os.unlink(cout)
        else:
            cres["errors"].append("no result: " + err.decode(errors="replace")[-600:])

    known = registry.known(a.pid)
    proved = [r for u in reps for r in u["results"] if r["status"] == "proved"]
    refuted = [(u, r) for u in reps for r in u["results"] if r["status"] == "refuted"]
    unknown = [(u, r) for u in reps for r in u["results"] if r["status"] == "unknown"]
    outside = [u for u in reps if u["error"]]
    total = sum(len(u["results"]) for u in reps) + len(outside)

    viol, lines, kf = [], [], []
    # 1. failing inputs on the real code
    fresh = list(cres["violations"])
    for k in known:
        if k["match"] in cres.get("known", {}):
            kf.append((k, cres["known"][k["match"]]))
    if fresh:
        v = fresh[0]
        path = os.path.join(OUT, "replay", f"{a.pid}-{hashlib.sha1(json.dumps(v, default=str, sort_keys=True).encode()).hexdigest()[:10]}.json")
        fo = [{"unit": u["unit"], "obligation": r["name"], "solver": r["backend"], "counter_model": r["note"]} for u, r in refuted + unknown][:10]
        json.dump({"property": a.pid, "violated": v["what"], "input": v["input"], "failed_obligations": fo,
                   "outside_subset": [f"{u['unit']}: {u['error']}" for u in outside],
                   "replay_cmd": f"{VENV} {HERE}/conc/main.py {a.pid} --replay {path}"}, open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={a.pid} replay={path}")
        viol = fresh
    else:
        # 2. refuted obligations (a counter-model exists) of the property's own functions, in exact mode
        own = [(u, r) for u, r in refuted if not u["approx"] and registry.counts(a.pid, u["unit"], r["name"])]
        if own:
            u, r = own[0]
            path = os.path.join(OUT, "replay", f"{a.pid}-obligation-{hashlib.sha1((u['unit'] + r['name']).encode()).hexdigest()[:10]}.json")
            json.dump({"property": a.pid, "failed_obligations": [{"function": u["functions"], "unit": u["unit"], "obligation": r["name"], "verifier": r["backend"], "status": r["status"],
                       "verifier_output": r["note"]} for u, r in own], "failing_input": None,
                       "note": "the obligation is refuted by a counter-model of the verifier; the search on the real code found no failing input"}, open(path, "w"), indent=1)
            lines.append(f"VIOLATION property={a.pid} replay={path} no-failing-input-found")
            viol = own
    for k, v in kf:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    wall = time.time() - t0
    fns = sorted({f for u in reps for f in u["functions"] if not u["error"] and all(r["status"] == "proved" for r in u["results"])})
    bounded = [f"{u['unit']} ({u['error'] or 'obligation not discharged'})" for u in reps if u["error"] or any(r["status"] != "proved" for r in u["results"])]
    cov = {
        "obligations": total, "discharged": len(proved),
        "checker_cmd": f"python3-vt {HERE}/run.py {a.pid} --tier {a.tier}",
        "trusted_base": registry.TRUSTED + info.get("trusted", []),
        "functions_under_contract": fns,
        "functions_inlined": sorted({f for u in reps for f in u["inlined"]} - set(fns)),
        "contracts_used_at_call_sites": sorted({f for u in reps for f in u["used"]}),
        "contracts_discharged_by_another_check": {f: registry.prover_of().get(f, "not discharged: assumed") for f in sorted({f for u in reps for f in u["used"]} - set(fns))},
        "back_ends": {b: sum(1 for r in proved if r["backend"] == b) for b in sorted({r["backend"] for r in proved})},
        "solver_seconds": round(sum(r["t"] for u in reps for r in u["results"]), 2),
        "units": [{"unit": u["unit"], "obligations": len(u["results"]), "proved": sum(r["status"] == "proved" for r in u["results"]), "wall_s": u.get("wall"), "error": u["error"]} for u in reps],
        "not_discharged": [{"unit": u["unit"], "obligation": r["name"], "status": r["status"]} for u, r in refuted + unknown][:20],
        "bounded_stand_ins": bounded + info.get("bounded", []),
        "evaluations": cres["evals"], "distinct_nontrivial": cres["distinct"], "rule": cres.get("rule", ""), "samples": cres["samples"],
        "concrete_search_complete": cres["exhausted"], "concrete_errors": cres["errors"], "concrete_skipped": cres["skipped"],
    }
    level = info["level"]
    if level == "other":
        cov["explanation"] = info["explanation"]
    ev = {"property": a.pid, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": sorted({x for u in reps for x in u["assumed"]}) + info.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(OUT, f"{a.pid}.json"), "w"), indent=1, default=str)
    print(f"{a.pid} [{a.tier}] {len(proved)}/{total} obligations discharged over {len(names)} functions/lemmas; {cres['evals']} executions of the real code; {wall:.1f} s")
    for u in outside:
        print(f"  bounded only: {u['unit']}: {u['error']}"[:300])
    for u, r in (refuted + unknown)[:6]:
        print(f"  not discharged: {u['unit']}: {r['name']} ({r['status']})"[:300])
    for e in cres["errors"]:
        print("  concrete: " + e[:300].replace("\n", " | "))
    if viol and fresh:
        print("  " + fresh[0]["what"][:400])
    for l in lines:
        print(l)
    if names and not proved and not viol and cres["evals"] == 0:
        print("  error: nothing was checked")
        sys.exit(2)
    if conc and cres["evals"] == 0 and not proved:
        sys.exit(2)
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
