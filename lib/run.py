"""Run one property's check:  run.py C04 [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored; exit 1 with a VIOLATION line: reproduced against the real
code; exit 2: no verdict (something could not be encoded, a solver gave up, or a counterexample
did not reproduce)."""
import argparse, hashlib, importlib, json, os, random, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
for k, v in dict(TF_CPP_MIN_LOG_LEVEL="2", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="-1",
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1",
                 TF_NUM_INTEROP_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0").items():
    os.environ.setdefault(k, v)


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def stable_seed(*xs):
    return int(hashlib.sha256(repr(xs).encode()).hexdigest()[:8], 16)


def norm_configs(mod, tier):
    c = mod.configs(tier)
    return list(c)


def run_configs(mod, prop, tier, seed, which, deadline, out_file=None, stuck=()):
    """returns list of per-config results; stuck: configurations whose symbolic run had to be killed"""
    from lib import harness as hs
    info = mod.INFO
    out = []

    def progress(ci, until):
        # for the parent, which ends a worker that a solver call keeps past its time
        if out_file:
            json.dump(out, open(out_file, "w"), default=str)
            json.dump(dict(config=ci, until=until), open(out_file + ".p~", "w"))
            os.replace(out_file + ".p~", out_file + ".p")
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    try:
        cfgs = norm_configs(mod, tier)
        for ci in which:
            cfg = dict(cfgs[ci])
            body = mod.body
            opts = cfg.pop("_opts", {})
            stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, paths=0, branches=0,
                         obligations=0, vars=0)
            t0 = time.time()
            rec = dict(config=ci, desc=repr(cfg)[:300])
            cap = info.get("config_s", {}).get(tier, 300 if tier == "quick" else 2400)
            progress(ci, time.time() + max(1.0, min(cap, deadline - time.time())) + 40)
            if ci in stuck:
                r = dict(status="unsupported", detail="the solver does not return", functions=[], files={}, labels=[],
                         completed_paths=0, denominators=0)
            elif opts.get("symbolic", True):
                r = hs.run_symbolic(body, cfg, stats, deadline, max_paths=opts.get("max_paths", info.get("max_paths", 6000)),
                                    query_timeout=opts.get("query_timeout", info.get("query_timeout", 60000)),
                                    scratch=scratch, cap=cap)
            else:
                r = dict(status="ok", paths=0, functions=[], files={}, labels=[], completed_paths=0)
            rec.update(status=r["status"], detail=r.get("detail"), label=r.get("label"), functions=r["functions"],
                       files=r["files"], labels=r["labels"], completed_paths=r["completed_paths"], stats=stats,
                       sym_s=round(time.time() - t0, 2))
            progress(ci, None)
            viol = None
            n_ok = n_skip = 0
            samples = []

            def conc(env, choices, sd):
                nonlocal n_ok, n_skip
                st, x = hs.run_concrete(body, cfg, env, choices, sd, scratch)
                if st == "ok":
                    n_ok += 1
                    if len(samples) < 2:
                        samples.append(dict(env=dict(list(x["env"].items())[:12]), choices=x["choices"]))
                elif st == "skip":
                    n_skip += 1
                return x if st == "violation" else None
            if r["status"] == "candidate":
                ch = r["choices"]
                tries = [(r["env"], ch)]
                for fs in range(3):
                    tries.append((dict(r["env"], __fnseed__=fs + 1), ch))
                for k in range(40):
                    tries.append(({"__fnseed__": k}, ch))
                for s in info.get("scales", (1e-2, 1e-4, 1e-7, 1e3)):
                    for k in range(6):
                        tries.append(({"__fnseed__": k, "__scale__": s}, ch))
                for k in range(40):
                    tries.append(({"__fnseed__": k}, {}))
                tlim = time.time() + info.get("replay_s", 120)
                for k, (env, c) in enumerate(tries):
                    viol = conc(env, c, stable_seed(seed, ci, k, "cand"))
                    if viol or time.time() > tlim:
                        break
                if not viol:
                    rec["status"] = "unreproduced"
                    if r.get("label") == "exception":
                        # raised under the executor only: a limit of the executor, not a verdict
                        rec.update(status="unsupported", label=None, detail="exception in the symbolic run only: %s" % r.get("detail"))
                rec["choices"] = ch
            nconf = opts.get("concrete", info.get("concrete", 3))
            if rec["status"] == "unsupported":
                nconf = max(nconf, 25)
            k = 0
            cl = time.time() + info.get("concrete_s", 60)
            while not viol and n_ok < nconf and k < 40 * max(nconf, 1) and (time.time() < cl or n_ok == 0):
                viol = conc({"__fnseed__": k}, {}, stable_seed(seed, ci, k, "conf"))
                k += 1
            if not viol and nconf and n_ok == 0:
                rec["status"] = "vacuous" if rec["status"] == "ok" else rec["status"]
                rec["detail"] = rec["detail"] or "no concrete input satisfied the assumptions"
            rec.update(concrete_ok=n_ok, concrete_skipped=n_skip, samples=samples, wall_s=round(time.time() - t0, 2))
            if viol:
                rec["status"] = "violation"
                rec["violation"] = dict(viol, config=ci, solver=r["status"], solver_detail=r.get("detail"))
            out.append(rec)
            if os.environ.get("VERIF_VERBOSE"):
                print("  [%s %d] %s paths=%s queries=%d %.1fs  %s %s" % (
                    prop, ci, rec["status"], r.get("paths"), stats["queries"], rec["wall_s"], rec["desc"][:120],
                    (rec.get("label"), rec.get("detail")) if rec["status"] != "ok" else ""), file=sys.stderr, flush=True)
            if viol:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--only", type=int)
    ap.add_argument("--stuck", default="[]")
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)
    info = mod.INFO
    limit = info.get("limit_s", {}).get(a.tier, 780 if a.tier == "quick" else 5400)
    deadline = t0 + limit
    if a.replay:
        from lib import harness as hs
        v = json.load(open(a.replay))
        cfgs = norm_configs(mod, v.get("tier", a.tier))
        cfg = dict(cfgs[v["config"]])
        cfg.pop("_opts", None)
        scratch = tempfile.mkdtemp(prefix="verif-")
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
        try:
            st, x = hs.run_concrete(mod.body, cfg, dict(v["env"], __fnseed__=v.get("fnseed", 0)), v["choices"],
                                    v.get("seed", 0), scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print(st, json.dumps(x, default=str)[:2000])
        if st == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0
    cfgs = norm_configs(mod, a.tier)
    if a.worker:
        which = json.loads(a.worker)
        res = run_configs(mod, prop, a.tier, seed, which, a.deadline or deadline, a.out, json.loads(a.stuck))
        json.dump(res, open(a.out, "w"), default=str)
        return 0
    which = list(range(len(cfgs))) if a.only is None else [a.only]
    jobs = 1 if a.only is not None else min(max(2, info.get("jobs", 4)), len(which))
    results, errors = [], []
    if a.only is not None:
        results = run_configs(mod, prop, a.tier, seed, which, deadline)
    else:
        tmp = tempfile.mkdtemp(prefix="verif-run-")
        try:
            # configs handed out one batch per worker, longest first as listed
            import threading
            procs, parts, outs, stop = {}, [], {}, []

            def start(part, o, stuck=()):
                return subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--tier", a.tier,
                                         "--worker", json.dumps(part), "--out", o, "--stuck", json.dumps(list(stuck)),
                                         "--deadline", repr(deadline)],
                                        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

            def done(o):
                try:
                    return json.load(open(o))
                except (OSError, ValueError):
                    return []

            def pump(k, part):
                left, stuck, n = list(part), [], 0
                while left and not stop:
                    o = os.path.join(tmp, "%d-%d.json" % (k, n))
                    parts.append(o)
                    n += 1
                    p = procs[k] = start(left, o, stuck)
                    killed = None
                    while True:
                        try:
                            r = p.communicate(timeout=2)
                            break
                        except subprocess.TimeoutExpired:
                            try:
                                q = json.load(open(o + ".p"))
                            except (OSError, ValueError):
                                continue
                            if killed is None and q["until"] and time.time() > q["until"]:
                                killed = q["config"]
                                p.kill()
                    outs[k] = (outs.get(k, ("", ""))[0] + r[0], outs.get(k, ("", ""))[1] + r[1])
                    res = done(o)
                    # a violation settles the check: the other workers need not finish
                    if any(r["status"] == "violation" for r in res) and not known_findings(prop):
                        stop.append(k)
                        for q in list(procs.values()):
                            if q.poll() is None:
                                q.terminate()
                    if killed is None:
                        if p.returncode and not stop:
                            errors.append("worker failed: " + r[1][-1500:])
                        return
                    seen = {r["config"] for r in res}
                    left = [c for c in left if c not in seen]
                    stuck = [killed]
            ths = [threading.Thread(target=pump, args=(j, which[j::jobs])) for j in range(jobs)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for k in outs:
                if os.environ.get("VERIF_VERBOSE"):
                    sys.stderr.write("\n".join(l for l in outs[k][1].splitlines() if l.startswith("  [")) + "\n")
            for o in parts:
                results += done(o)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    results.sort(key=lambda r: r["config"])
    return report(mod, prop, a.tier, seed, cfgs, which, results, errors, t0)


def report(mod, prop, tier, seed, cfgs, which, results, errors, t0):
    info = mod.INFO
    ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replay"), exist_ok=True)
    viols, known = [], []
    kf = known_findings(prop)
    for r in results:
        if r["status"] == "violation":
            v = dict(r["violation"], property=prop, tier=tier)
            hit = [k for k in kf if k["match"] in (str(v.get("label")) + " " + str(v.get("detail")))]
            if hit:
                known.append(hit[0])
                continue
            path = os.path.join(ev_dir, "replay", "%s-%d.json" % (prop, r["config"]))
            json.dump(v, open(path, "w"), indent=1, default=str)
            viols.append((path, v))
    tot = {}
    funcs, files, labels = set(), {}, set()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        funcs |= set(r["functions"])
        files.update(r["files"])
        labels |= set(r["labels"])
    problems = ["%s: config %d (%s): %s %s" % (r["status"], r["config"], r["desc"][:160], r.get("label") or "", r.get("detail") or "")
                for r in results if r["status"] not in ("ok", "violation")]
    problems += errors
    done = {r["config"] for r in results}
    missing = [c for c in which if c not in done]
    if missing and not viols:
        problems.append("configurations not finished: %s" % missing)
    samples = []
    for r in results[:8]:
        samples.append(dict(config=r["desc"], paths=r["completed_paths"], queries=r["stats"]["queries"],
                            concrete=r["samples"][:1]))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
              assumptions=info["assumptions"], violations=len(viols),
              coverage=dict(
                  states=max(int(tot.get("paths", 0)), 0), transitions=int(tot.get("queries", 0)),
                  traces_validated_against_impl=sum(r["concrete_ok"] for r in results),
                  samples=samples,
                  bounds=info["bounds"], configurations=len(results),
                  functions_encoded=sorted(funcs), sources=dict(sorted((os.path.relpath(k, REPO), v) for k, v in files.items())),
                  obligations=int(tot.get("obligations", 0)), obligation_kinds=sorted(labels),
                  queries_discharged=int(tot.get("queries", 0)), unsat=int(tot.get("unsat", 0)), sat=int(tot.get("sat", 0)),
                  unknown=int(tot.get("unknown", 0)), solver_s=round(tot.get("solver_s", 0.0), 3),
                  concrete_draws_outside_assumptions=sum(r["concrete_skipped"] for r in results),
                  problems=problems))
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1, default=str)
    for k in {k["id"]: k for k in known}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s %s: %d configurations, %d paths, %d obligations, %d queries (%d unsat), solver %.1fs, %d concrete runs, %.1fs" % (
        prop, tier, len(results), tot.get("paths", 0), tot.get("obligations", 0), tot.get("queries", 0),
        tot.get("unsat", 0), tot.get("solver_s", 0.0), ev["coverage"]["traces_validated_against_impl"], ev["wall_s"]))
    for path, v in viols:
        print("  %s: %s [solver: %s]" % (v["label"], v["detail"], v.get("solver_detail")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viols:
        return 1
    soft = [r for r in results if r["status"] == "unsupported"]
    good = [r for r in results if r["status"] == "ok"]
    hard = [p for p in problems if not p.startswith("unsupported:")]
    for p in problems:
        print(("NO VERDICT: " if hard or 2 * len(good) < len(results) else "NOT EXPLORED: ") + p)
    # configurations the executor could not encode are reported and left out of what was explored;
    # with fewer than half of them decided, or anything else wrong, there is no verdict at all
    if hard or (soft and 2 * len(good) < len(results)):
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        import traceback
        traceback.print_exc()
        print("NO VERDICT: the check itself failed")
        sys.exit(2)
