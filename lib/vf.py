"""Shared harness for the runtime-monitoring checks.

A check module defines
    PROP   : property id
    LEVEL  : evidence level
    RULE   : how cases are made / what makes one non-trivial
    GROUPS : {name: (fn, weight)} where fn(ctx, rng) runs ONE case
and calls vf.main(globals()).

Each case runs the real code from /repo/src, recording observations in ctx:
    ctx.ev(kind, n=1)         a monitored event was observed
    ctx.case(key)             a distinct non-trivial case (hashable/str key)
    ctx.viol(mech, msg, data) the oracle refuted the property (mech = mechanism
                              key used for known-finding matching)
Three-valued verdict: violation (exit 1), held (exit 0), inconclusive (exit 2,
when a group observed too little or the watchdog fired on too many cases).
"""
import argparse, hashlib, importlib, io, json, multiprocessing as mp, os, random
import signal, sys, time, traceback, contextlib, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known", "findings.json")


def setup_path():
    for p in (REPO, os.path.join(REPO, "src")):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    for k in ("YAPCAD_BOOLEAN_ENGINE", "YAPCAD_MESH_BOOLEAN_ENGINE", "YAPCAD_TRIMESH_BACKEND"):
        os.environ.pop(k, None)


class CaseTimeout(BaseException):
    pass


class Ctx:
    def __init__(self, seed=0, group="", idx=0):
        self.events = {}
        self.keys = set()
        self.viols = []
        self.samples = []
        self.seed, self.group, self.idx = seed, group, idx
        self.tier = os.environ.get("VERIF_TIER", "quick")

    def ev(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def case(self, key):
        if not isinstance(key, str):
            key = repr(key)
        self.keys.add(hashlib.md5(key.encode("utf8", "replace")).hexdigest()[:16])
        if len(self.samples) < 1:
            self.samples.append(key[:600])

    def viol(self, mech, msg, data=None):
        self.viols.append({"mech": mech, "msg": str(msg)[:1500], "data": _short(data),
                           "group": self.group, "idx": self.idx, "seed": self.seed})

    def check(self, cond, mech, msg, data=None):
        self.ev("assertions")
        if not cond:
            self.viol(mech, msg() if callable(msg) else msg, data)
        return cond


def _short(d):
    try:
        s = json.dumps(d, default=repr)
    except Exception:
        s = repr(d)
    return s if len(s) < 6000 else s[:6000] + "..."


def case_rng(seed, group, idx):
    return random.Random(f"{seed}/{group}/{idx}")


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(fn, prop, seed, group, idx, limit, quiet=True):
    ctx = Ctx(seed, group, idx)
    rng = case_rng(seed, group, idx)
    # the watchdog counts CPU time of this process, so a busy machine cannot trip it
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    c0 = time.process_time()
    out = "ok"
    random.seed(f"{seed}/{group}/{idx}/g")
    try:
        if quiet:
            with contextlib.redirect_stdout(io.StringIO()):
                fn(ctx, rng)
        else:
            fn(ctx, rng)
    except CaseTimeout:
        out = "timeout"
        ctx.viol("hang", f"a case of group {group} did not finish within {limit} s of CPU time", {"group": group, "idx": idx})
    except Exception as e:
        signal.setitimer(signal.ITIMER_PROF, 0)
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + "/")]
        last_h = tb[-1]
        ctx.viol(f"exception:{type(e).__name__}:" + (inrepo[-1].name if inrepo else "harness"),
                 f"unexpected {type(e).__name__}: {e} at {last_h.filename}:{last_h.lineno}",
                 traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    ctx.cpu = time.process_time() - c0
    return ctx, out


def _worker(modname, seed, wid, nw, budgets, t_end, limit, q):
    try:
        setup_path()
        sys.stderr = open(os.devnull, "w")
        mod = importlib.import_module(modname)
        if hasattr(mod, "init"):
            with contextlib.redirect_stdout(io.StringIO()):
                mod.init()
        agg = {"ev": {}, "keys": set(), "viols": [], "samples": {}, "n": {}, "timeouts": {}, "cut": False, "maxcpu": {}}
        known = load_known(mod.PROP)
        # deterministic case list: idx wid, wid+nw, ... per group, round-robin over groups
        cursors = {g: wid for g in budgets}
        live = [g for g in budgets if cursors[g] < budgets[g]]
        while live:
            for g in list(live):
                if time.time() > t_end:
                    agg["cut"] = True
                    live = []
                    break
                i = cursors[g]
                ctx, st = run_case(mod.GROUPS[g][0], mod.PROP, seed, g, i, limit)
                agg["n"][g] = agg["n"].get(g, 0) + 1
                agg["maxcpu"][g] = max(agg["maxcpu"].get(g, 0), round(ctx.cpu, 2))
                if st == "timeout":
                    agg["timeouts"][g] = agg["timeouts"].get(g, 0) + 1
                for k, v in ctx.events.items():
                    agg["ev"][k] = agg["ev"].get(k, 0) + v
                agg["keys"] |= ctx.keys
                if len(agg["viols"]) < 400:
                    agg["viols"] += ctx.viols
                if ctx.samples and len(agg["samples"].setdefault(g, [])) < 2:
                    agg["samples"][g].append({"group": g, "idx": i, "case": ctx.samples[0]})
                if ctx.viols and os.environ.get("VERIF_FAST") and any(not known_match(v, known) for v in ctx.viols):
                    live = []      # development: one violation is enough
                    break
                cursors[g] += nw
                if cursors[g] >= budgets[g]:
                    live.remove(g)
        if hasattr(mod, "fini"):
            mod.fini()
        q.put((wid, agg))
    except BaseException:
        q.put((wid, {"crash": traceback.format_exc()}))


def load_known(prop):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def known_match(v, known):
    for k in known:
        if v["mech"] == k["mech"]:
            return k
    return None


def main(g):
    prop, groups = g["PROP"], g["GROUPS"]
    modname = os.path.splitext(os.path.basename(g["__file__"]))[0]
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--group")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--show", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    a = ap.parse_args()
    os.environ["VERIF_TIER"] = a.tier
    os.environ.setdefault("PYTHONHASHSEED", "0")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(k, "1")
    os.environ.setdefault("MPLBACKEND", "Agg")
    setup_path()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    limit = g.get("CASE_LIMIT", 60)
    if a.replay:
        r = json.load(open(a.replay))
        mod = importlib.import_module(modname)
        os.environ["VERIF_TIER"] = r.get("tier", "quick")
        if hasattr(mod, "init"):
            mod.init()
        ctx, st = run_case(mod.GROUPS[r["group"]][0], prop, r["seed"], r["group"], r["idx"], 600, quiet=False)
        print(json.dumps({"status": st, "violations": ctx.viols, "events": ctx.events}, indent=1))
        sys.exit(1 if ctx.viols else 0)
    t0 = time.time()
    thorough = a.tier == "thorough"
    if thorough:
        limit *= 3
    wall = g.get("WALL_THOROUGH", 600) if thorough else g.get("WALL_QUICK", 240)
    budgets = {}
    for name, spec in groups.items():
        n = spec[1] if not thorough else (spec[2] if len(spec) > 2 else spec[1] * 12)
        if a.group and name != a.group:
            continue
        budgets[name] = max(1, int(n * a.scale))
    ctxm = mp.get_context("spawn")
    q = ctxm.Queue()
    nw = a.workers
    procs = [ctxm.Process(target=_worker, args=(modname, a.seed, w, nw, budgets, t0 + wall, limit, q))
             for w in range(nw)]
    for p in procs:
        p.start()
    res, crashes = {}, []
    deadline = t0 + wall + limit + 60
    while len(res) < nw and time.time() < deadline:
        try:
            w, agg = q.get(timeout=1)
            res[w] = agg
        except Exception:
            if all(not p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()
    ev, keys, viols, samples, n, tmo, maxcpu = {}, set(), [], [], {}, {}, {}
    cut = False
    for w in range(nw):
        agg = res.get(w)
        if agg is None:
            crashes.append(f"worker {w}: no result")
            continue
        if "crash" in agg:
            crashes.append(agg["crash"])
            continue
        for k, v in agg["ev"].items():
            ev[k] = ev.get(k, 0) + v
        keys |= agg["keys"]
        viols += agg["viols"]
        for gname, s in agg["samples"].items():
            if sum(1 for x in samples if x["group"] == gname) < 2:
                samples += s[:1]
        for k, v in agg["maxcpu"].items():
            maxcpu[k] = max(maxcpu.get(k, 0), v)
        for k, v in agg["n"].items():
            n[k] = n.get(k, 0) + v
        for k, v in agg["timeouts"].items():
            tmo[k] = tmo.get(k, 0) + v
        cut |= agg["cut"]
    known = load_known(prop)
    fresh, hit = [], {}
    for v in viols:
        k = known_match(v, known)
        if k:
            hit.setdefault(k["mech"], []).append(v)
        else:
            fresh.append(v)
    inconc = []
    if crashes:
        inconc.append("worker crash: " + crashes[0][-1500:])
    for name in budgets:
        if n.get(name, 0) < max(1, budgets[name] // 10):
            inconc.append(f"group {name}: only {n.get(name,0)} of {budgets[name]} cases ran")
        if tmo.get(name, 0) > max(2, n.get(name, 0) // 2):
            inconc.append(f"group {name}: {tmo[name]} watchdog timeouts")
    if not a.group:
        for k, need in g.get("REQUIRE", {}).items():
            if ev.get(k, 0) < need * min(1.0, a.scale):
                inconc.append(f"monitor '{k}' observed {ev.get(k,0)} events (<{need})")
    wallt = time.time() - t0
    total = sum(n.values())
    evd = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": a.seed,
           "level": g.get("LEVEL", "exploration"),
           "coverage": {"evaluations": total, "distinct_nontrivial": len(keys), "rule": g["RULE"],
                        "samples": samples[:12], "cases_per_group": n, "monitor_events": ev,
                        "watchdog_timeouts": tmo, "max_case_cpu_s": maxcpu, "wall_budget_cut": cut,
                        "inconclusive": inconc,
                        "known_findings_hit": {k: len(v) for k, v in hit.items()}},
           "assumptions": g.get("ASSUME", []), "wall_s": round(wallt, 2), "violations": len(fresh)}
    if not a.group and a.scale == 1.0 and "VERIF_REPO" not in os.environ:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    for k in known:
        if not k.get("quiet_unless_hit") or k["mech"] in hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    print(f"[{prop}] {a.tier} seed={a.seed} cases={total} distinct={len(keys)} wall={wallt:.1f}s events="
          + json.dumps(ev) + (f" timeouts={tmo}" if tmo else ""))
    if fresh:
        rd = os.path.join(os.environ.get("VERIF_REPLAY_DIR", os.path.join(VERIF, "evidence")), "replay")
        os.makedirs(rd, exist_ok=True)
        bym = {}
        for v in fresh:
            bym.setdefault(v["mech"], []).append(v)
        for i, (m, vs) in enumerate(sorted(bym.items(), key=lambda x: -len(x[1]))):
            v = min(vs, key=lambda z: (z["group"], z["idx"]))
            path = os.path.join(rd, f"{prop}-{i}.json")
            v["tier"] = "thorough" if thorough else "quick"
            v["replay_cmd"] = f"/opt/venv/bin/python {VERIF}/checks/{modname}.py --replay {path}"
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  mech={m} count={len(vs)} group={v['group']} idx={v['idx']} :: {v['msg'][:400]}")
            for x in vs[1:1 + a.show]:
                print(f"     also idx={x['idx']} :: {x['msg'][:300]}")
        sys.exit(1)
    if inconc:
        print("INCONCLUSIVE: " + " | ".join(inconc))
        sys.exit(2)
    print(f"[{prop}] held on everything explored")
    sys.exit(0)
