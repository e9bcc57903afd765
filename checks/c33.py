import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json, math, shutil, stat, tempfile
from pathlib import Path
import vf

PROP = "C33"
LEVEL = "exploration"
META = dict(
    title="Analysis plans: verdict, metrics, schema reports, face names, bolt setup",
    statement="load_plan returns every field of the YAML plan, unknown ones as metadata, and refuses a missing file, a non-mapping and a plan without id, kind or backend. Schema validation never raises, and reports exactly the malformed fields of a plan or result as errors and exactly the recommended-but-missing or unknown ones as warnings; valid means no error. The native backend's metrics (volume, area, box, mass, centroid, per part and total) are those of the packaged solids. A plan passes only if every criterion with a limit holds for its metric, fails if one is violated, is pending if a metric is missing and none is violated, and reports an error for what it cannot check; the per-criterion results and the list of failed criteria agree with the verdict. analyze_package writes a valid result under validation/results/<id> of that package only, records plan and result once however often it runs, and with no adapter records the given status. The CalculiX input is a conforming axisymmetric mesh with the supports and the whole thrust, its verdict follows the solver's exit code and largest displacement. FaceNamer selects exactly the faces its selectors describe, last name wins. FEA setup from an assembly graph places each bolt by composing the interface transforms, with its axis, head, tip, clock angle and stiffness, and resolves the load case.",
    over=["inputs", "faults"], q="for all plans, packages, acceptance rules, solver outcomes, selectors and assembly graphs",
    why="A validation plan is the package's own test: a verdict of 'passed' for a criterion not met, not evaluated or evaluated on the wrong number defeats its purpose, and the wrong bolt or load position silently falsifies the simulation behind it.",
    files=["src/yapcad/package/analysis/base.py", "src/yapcad/package/analysis/schema.py", "src/yapcad/package/analysis/yapcad_native.py", "src/yapcad/package/analysis/cli.py", "src/yapcad/package/analysis/calculix.py", "src/yapcad/package/analysis/face_naming.py", "src/yapcad/package/analysis/mechatron_fea_setup.py"],
    mech=[("load_plan, register_backend, AnalysisResult", "src/yapcad/package/analysis/base.py"), ("validate_plan, validate_result", "src/yapcad/package/analysis/schema.py"), ("YapCADNativeAdapter", "src/yapcad/package/analysis/yapcad_native.py"), ("analyze_package", "src/yapcad/package/analysis/cli.py"), ("CalculixAdapter", "src/yapcad/package/analysis/calculix.py"), ("FaceNamer and selectors", "src/yapcad/package/analysis/face_naming.py"), ("prepare, generate_bolts_for_interface, solve_world_transforms", "src/yapcad/package/analysis/mechatron_fea_setup.py")],
    technique="runs of the real plan pipeline in scratch packages against a reference schema checker, mesh quantities from numpy, a reference acceptance rule, 4x4 matrix composition for bolts; a stand-in solver script with chosen exit codes and results",
    note="Exploration. The FEniCS adapter needs dolfinx and is out of scope, gmsh's meshing itself too. Metrics within 1e-6 (relative) of their limit are avoided for order comparisons.",
)
RULE = "random plans, documents, packages, rules, solids, selectors and graphs; distinct by the recipe"
REQUIRE = {"plan": 150, "plan:refused": 40, "schema": 500, "schema:bad": 250, "native": 100, "metric": 500, "criterion": 200, "status:passed": 15, "status:failed": 30, "status:pending": 10, "status:error": 10, "record": 100, "calculix": 60, "faces": 100, "select": 250, "bolts": 60, "bolt": 200, "load": 25}
WALL_QUICK = 200


def init():
    global np, yaml, g, g3, u, A, S, FN, MF, P, M, gen3, TMP, R, analyze_package, PackageManifest
    import numpy as np
    import yaml
    from yapcad import geom as g, geom3d as g3, geom3d_util as u
    import yapcad.package.analysis as A
    from yapcad.package.analysis import schema as S, face_naming as FN, mechatron_fea_setup as MF
    from yapcad.package.analysis.cli import analyze_package
    from yapcad.package import PackageManifest
    import yapcad.package as P
    import mesh3 as M, gen3
    TMP = tempfile.mkdtemp(prefix="c33")
    sys.stderr.flush()


def fini():
    shutil.rmtree(TMP, ignore_errors=True)


WORDS = ["volume-check", "mass budget", "x", "thrust-fea", "gr\u00f6\u00dfe", "a.b", "Plan_7"]


def word(rng):
    return rng.choice(WORDS) + rng.choice(["", str(rng.randrange(1000))])


def value(rng, d=0):
    k = rng.randrange(8 if d < 2 else 5)
    if k == 0:
        return rng.choice([0, 1, -3, 7])
    if k == 1:
        return rng.uniform(-1e3, 1e3)
    if k == 2:
        return rng.choice([True, False])
    if k == 3:
        return word(rng)
    if k == 4:
        return None
    if k == 5:
        return [value(rng, d + 1) for _ in range(rng.randrange(4))]
    return {word(rng): value(rng, d + 1) for _ in range(rng.randrange(4))}


# ---------------------------------------------------------------- plans

def plan(ctx, rng):
    f = os.path.join(TMP, f"plan{rng.randrange(3)}.yaml")
    obj = lambda: {word(rng): value(rng) for _ in range(rng.randrange(3))}
    lst = lambda: [obj() for _ in range(rng.randrange(3))]
    d = {"id": rng.choice([word(rng), 7, 2.5]), "kind": rng.choice(["geometric", "structural", "fea"]), "backend": rng.choice(["yapcad", "CalculiX", "Remote"])}
    for k, mk in (("name", lambda: word(rng)), ("description", lambda: word(rng)), ("geometry", obj), ("materials", obj), ("loads", lst), ("boundaryConditions", lst), ("boundary_conditions", lst),
                  ("acceptance", obj), ("backendOptions", obj), ("attachments", lst), ("check", obj), ("metadata", obj), ("faceNaming", obj), ("custom", lambda: value(rng))):
        if rng.random() < .5:
            d[k] = mk()
            if rng.random() < .1 and k not in ("name", "description"):
                d[k] = None
    ex = {}
    if rng.random() < .6:
        for k in ("mode", "command", "transport", "host", "workdir"):
            if rng.random() < .5:
                ex[k] = rng.choice(["local", "remote", "Batch", "ssh", "x"])
        for k in ("env", "options", "license"):
            if rng.random() < .5:
                ex[k] = rng.choice([{word(rng): "v"}, {}, None])
        d["execution"] = ex
    ctx.case(d)
    bad = rng.random() < .25
    if bad:
        k = rng.randrange(5)
        if k == 0:
            f = os.path.join(TMP, "nothere.yaml")
        else:
            if k < 3:
                for key in rng.sample(["id", "kind", "backend"], rng.randint(1, 3)):
                    d.pop(key, None)
                doc = d
            else:
                doc = [None, [d], "text", 5][rng.randrange(4)]
            open(f, "w", encoding="utf-8").write(yaml.safe_dump(doc))
        ctx.ev("plan:refused")
        try:
            A.load_plan(f if rng.random() < .5 else Path(f))
            ctx.viol("plan:refuse", "load_plan accepted a missing, incomplete or non-mapping plan", d)
        except FileNotFoundError:
            ctx.check(k == 0, "plan:refuse", "FileNotFoundError for a file that is there", d)
        except ValueError as e:
            ctx.check(k != 0 and (not 0 < k < 3 or all(x in str(e) for x in ("id", "kind", "backend") if x not in d)), "plan:refuse", lambda: f"{e}", d)
        return
    open(f, "w", encoding="utf-8").write(yaml.safe_dump(d, allow_unicode=True, sort_keys=rng.random() < .5))
    p = A.load_plan(f if rng.random() < .5 else Path(f))
    ctx.ev("plan")
    eq = lambda a, b, w: ctx.check(a == b and type(a) is type(b), "plan:" + w, lambda: f"{w}: {a!r}, the plan says {b!r}", d)
    eq(p.plan_id, str(d["id"]), "id")
    eq(p.kind, d["kind"], "kind")
    eq(p.backend, d["backend"], "backend")
    eq(p.normalized_backend, d["backend"].lower(), "backend")
    eq(p.name, d.get("name"), "name")
    eq(p.description, d.get("description"), "description")
    for a, k in (("geometry", "geometry"), ("materials", "materials"), ("acceptance", "acceptance"), ("backend_options", "backendOptions")):
        eq(getattr(p, a), d.get(k) or {}, k)
    eq(p.loads, d.get("loads") or [], "loads")
    eq(p.attachments, d.get("attachments") or [], "attachments")
    bc = d.get("boundaryConditions")
    eq(p.boundary_conditions, (d.get("boundary_conditions") if bc is None else bc) or [], "boundary conditions")
    eq(p.metadata, {k: v for k, v in d.items() if k in ("check", "metadata", "faceNaming", "custom")}, "metadata")
    eq(p.raw, d, "raw")
    eq(p.execution.mode, ex.get("mode", "local"), "mode")
    for k in ("command", "transport", "host", "workdir"):
        eq(getattr(p.execution, k), ex.get(k), k)
    for k in ("env", "options", "license"):
        eq(getattr(p.execution, k), ex.get(k) or {}, k)
    eq(p.execution.is_remote, p.execution.mode.lower() in ("remote", "batch"), "remote")


# ---------------------------------------------------------------- schema

KINDS = ("geometric", "measurement", "structural", "thermal", "cfd", "multiphysics", "assembly")
PROPS = {"geometric": ("volume", "area", "bbox", "centroid", "distance", "clearance"), "measurement": ("dimension", "mass", "centroid", "moment"), "assembly": ("interference", "fit", "alignment", "clearance")}
OPS = ("<=", ">=", "<", ">", "==", "~=")
LOADS = ("pressure", "force", "moment", "gravity", "thermal", "displacement")
BCS = ("fixed", "pinned", "roller", "spring", "symmetry", "thermal")
STATUS = ("passed", "failed", "error", "skipped", "pending")


def is_in(x, L):
    return isinstance(x, str) and x in L


def ref_plan(d):
    """(error paths, warning paths) of a plan"""
    E, W = [], []
    if any(k not in d for k in ("id", "kind", "backend")):
        return [""], []
    k = d["kind"]
    if not is_in(k, KINDS):
        return ["kind"], []
    for f in ("id", "backend"):
        if not isinstance(d[f], str) or not d[f].strip():
            E.append(f)
    if "geometry" in d:
        q = d["geometry"]
        if not isinstance(q, dict):
            E.append("geometry")
        else:
            if "source" not in q:
                W.append("geometry")
            if "entities" in q and not isinstance(q["entities"], list):
                E.append("geometry.entities")
    if "acceptance" in d:
        q = d["acceptance"]
        if not isinstance(q, dict):
            E.append("acceptance")
        else:
            for m, c in q.items():
                path = f"acceptance.{m}"
                if not isinstance(c, dict):
                    E.append(path)
                    continue
                if "limit" not in c:
                    E.append(path)
                if "comparison" in c:
                    if not is_in(c["comparison"], OPS):
                        E.append(path + ".comparison")
                    if c["comparison"] == "~=" and "tolerance" not in c:
                        W.append(path)
    known = {"id", "kind", "backend", "name", "description", "geometry", "acceptance", "execution", "metadata", "attachments"}
    if k in PROPS:
        known |= {"check"}
        if "check" not in d:
            E.append("")
        elif not isinstance(d["check"], dict):
            E.append("check")
        elif "property" not in d["check"]:
            E.append("check")
        elif not is_in(d["check"]["property"], PROPS[k]):
            E.append("check.property")
    else:
        known |= {"materials", "boundaryConditions", "boundary_conditions", "backendOptions", "faceNaming"} | ({"loads"} if k != "cfd" else set())
        if "materials" in d and not isinstance(d["materials"], dict):
            E.append("materials")
        for key, kinds in (("loads", LOADS), ("boundaryConditions" if "boundaryConditions" in d else "boundary_conditions", BCS)):
            if key not in d:
                continue
            if not isinstance(d[key], list):
                E.append(key)
                continue
            for i, x in enumerate(d[key]):
                path = f"{key}[{i}]"
                if not isinstance(x, dict):
                    E.append(path)
                    continue
                if "type" not in x:
                    E.append(path)
                elif not is_in(x["type"], kinds):
                    E.append(path + ".type")
                if "id" not in x:
                    W.append(path)
                if "surfaces" not in x and "strategy" not in x:
                    W.append(path)
        if k in ("structural", "thermal") and "materials" not in d:
            W.append("")
    W += [str(x) for x in d if x not in known]
    return E, W


def ref_result(d):
    E, W = [], []
    if any(k not in d for k in ("plan_id", "status")):
        return [""], []
    if not is_in(d["status"], STATUS):
        E.append("status")
    if not isinstance(d["plan_id"], str) or not d["plan_id"].strip():
        E.append("plan_id")
    if "metrics" in d and not isinstance(d["metrics"], dict):
        E.append("metrics")
    if "acceptance_results" in d:
        q = d["acceptance_results"]
        if not isinstance(q, dict):
            E.append("acceptance_results")
        else:
            for m, r in q.items():
                if not isinstance(r, dict):
                    E.append(f"acceptance_results.{m}")
                else:
                    W += [f"acceptance_results.{m}" for f in ("value", "passed") if f not in r]
    if "artifacts" in d:
        q = d["artifacts"]
        if not isinstance(q, list):
            E.append("artifacts")
        else:
            for i, a in enumerate(q):
                if not isinstance(a, dict):
                    E.append(f"artifacts[{i}]")
                elif "path" not in a:
                    W.append(f"artifacts[{i}]")
    known = {"plan_id", "status", "timestamp", "backend", "backend_version", "execution_time_s", "metrics", "acceptance_results", "artifacts", "errors", "warnings", "notes"}
    W += [str(x) for x in d if x not in known]
    return E, W


def mk_plan(rng):
    k = rng.choice(KINDS)
    d = {"id": word(rng), "kind": k, "backend": rng.choice(["yapcad", "calculix"])}
    if rng.random() < .6:
        d["geometry"] = {**({"source": "geometry/primary.json"} if rng.random() < .7 else {}), **({"entities": ["a"]} if rng.random() < .5 else {})}
    if rng.random() < .7:
        d["acceptance"] = {m: {**({"limit": rng.choice([1, 2.5, "180e6"])} if rng.random() < .9 else {}), **({"comparison": rng.choice(OPS)} if rng.random() < .8 else {}), **({"tolerance": .1} if rng.random() < .4 else {})} for m in rng.sample(["volume", "bbox.x", "mass_kg", "stress.max"], rng.randint(0, 3))}
    if k in PROPS:
        if rng.random() < .9:
            d["check"] = {"property": rng.choice(PROPS[k])}
    elif True:
        if rng.random() < .6:
            d["materials"] = {"default": {"name": "x"}}
        for key, kinds in (("loads", LOADS), ("boundaryConditions", BCS), ("boundary_conditions", BCS)):
            if rng.random() < .5:
                d[key] = [{**({"type": rng.choice(kinds)} if rng.random() < .9 else {}), **({"id": "i"} if rng.random() < .7 else {}), **({rng.choice(["surfaces", "strategy"]): ["s"]} if rng.random() < .7 else {})} for _ in range(rng.randint(0, 3))]
    for key in ("name", "description", "execution", "metadata", "attachments", "backendOptions", "faceNaming", "extra", "check", "loads", "materials"):
        if rng.random() < .12 and key not in d:
            d[key] = value(rng)
    return d


def mk_result(rng):
    d = {"plan_id": word(rng), "status": rng.choice(STATUS)}
    if rng.random() < .6:
        d["metrics"] = {"volume": 3.0}
    if rng.random() < .7:
        d["acceptance_results"] = {m: {k: 1 for k in ("value", "passed", "limit") if rng.random() < .8} for m in rng.sample(["volume", "mass", "x"], rng.randint(0, 3))}
    if rng.random() < .7:
        d["artifacts"] = [{**({"path": "x"} if rng.random() < .8 else {}), "kind": "log"} for _ in range(rng.randint(0, 3))]
    for key in ("timestamp", "backend", "backend_version", "execution_time_s", "errors", "warnings", "notes", "plan", "extra"):
        if rng.random() < .2:
            d[key] = value(rng)
    return d


def mutate(rng, d):
    """put a random value somewhere in the document, or drop a key"""
    d = copy.deepcopy(d)
    spots = []
    def walk(x):
        for k in (list(x) if isinstance(x, dict) else range(len(x)) if isinstance(x, list) else []):
            spots.append((x, k))
            walk(x[k])
    walk(d)
    for _ in range(rng.randint(1, 2)):
        x, k = rng.choice(spots)
        if k not in x if isinstance(x, dict) else k >= len(x):
            continue
        r = rng.random()
        if r < .25:
            del x[k]
        elif r < .35 and isinstance(x, dict):
            x[rng.choice(["surprise", 12, True, None])] = value(rng)
        else:
            x[k] = rng.choice([value(rng), "", "  ", [], {}, "nonsense", 5, None, ["a"], {"a": 1}, True])
    return d


def schema(ctx, rng):
    res = rng.random() < .4
    d = mk_result(rng) if res else mk_plan(rng)
    if rng.random() < .65:
        d = mutate(rng, d)
    ref, fn, ff = (ref_result, S.validate_result, S.validate_result_file) if res else (ref_plan, S.validate_plan, S.validate_plan_file)
    ctx.ev("schema")
    ctx.case(repr(d))
    E, W = ref(d)
    if E:
        ctx.ev("schema:bad")
    before = repr(d)
    rep = fn(d)
    if rng.random() < .3:      # through the file
        f = os.path.join(TMP, "doc.json" if res else "doc.yaml")
        if res and json.loads(json.dumps(d)) == d:
            json.dump(d, open(f, "w"))
            rep = ff(f)
        elif not res:
            open(f, "w").write(yaml.safe_dump(d))
            rep = ff(Path(f))
    ctx.check(before == repr(d), "schema:mutates", "validation changed the document", before)
    got = sorted(e.path for e in rep.errors)
    ctx.check(got == sorted(E), "schema:errors", lambda: f"errors at {got}, the document is wrong at {sorted(E)}: {[str(e) for e in rep.errors]}", before)
    gw = sorted(e.path for e in rep.warnings)
    ctx.check(gw == sorted(W), "schema:warnings", lambda: f"warnings at {gw}, expected {sorted(W)}", before)
    ctx.check(rep.valid is (not E), "schema:valid", lambda: f"valid={rep.valid}, errors {got}", before)
    ctx.check(all(e.severity == "error" for e in rep.errors) and all(e.severity == "warning" for e in rep.warnings), "schema:severity", "severity", before)
    ctx.check(all(str(e) in str(rep) for e in rep.errors) and ("passed" in str(rep)) == (not E) if all("passed" not in str(e) for e in rep.errors + rep.warnings) else True, "schema:text", lambda: f"{rep}", before)
    if rng.random() < .08:
        f = os.path.join(TMP, "junk")
        k = rng.randrange(4)
        txt = ["", "[1, 2", "- a\n- b\n", "5"][k]
        open(f, "w").write(txt)
        for r in (S.validate_plan_file(f), S.validate_plan_file(f + "nothere"), S.validate_result_file(f + "nothere")):
            ctx.check(r.valid is False and len(r.errors) == 1, "schema:file", lambda: f"{txt!r}: {r}", txt)
        if k != 2:
            r = S.validate_result_file(f)
            ctx.check(r.valid is False and len(r.errors) == 1, "schema:file", lambda: f"{txt!r}: {r}", txt)


# ---------------------------------------------------------------- native backend

def solid(rng):
    k = rng.randrange(4)
    R = rng.uniform
    p = g.point(R(-20, 20), R(-20, 20), R(-20, 20))
    s = u.prism(R(5, 30), R(5, 30), R(5, 30), p) if k == 0 else u.conic(R(5, 15), rng.choice([0, R(3, 9)]), R(5, 20), p, angr=20) if k == 1 else u.sphere(R(6, 20), p, depth=1) if k == 2 else None
    if s is None:
        L = [(0, 0), (R(20, 40), 0), (R(20, 40), R(8, 12)), (R(8, 12), R(8, 12)), (R(3, 8), R(20, 40))]
        s = u.extrude(g3.poly2surface([g.point(x, y) for x, y in L + L[:1]])[0], R(5, 20))
    if rng.random() < .6:
        s = g3.rotatesolid(s, R(0, 360), axis=g.point(rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)))
    if rng.random() < .6:
        s = g3.translatesolid(s, g.point(R(-50, 50), R(-50, 50), R(-50, 50)))
    return s


def centroid(T):
    c = T.mean(axis=(0, 1))
    X = T - c
    v = np.einsum("ij,ij->i", X[:, 0], np.cross(X[:, 1], X[:, 2])) / 6
    return c + (v[:, None] * X.sum(axis=1) / 4).sum(axis=0) / v.sum()


def ref_metrics(prop, spec, Ts):
    m = {"part_count": len(Ts)}
    many = len(Ts) > 1
    vol = [abs(M.volume(T)) for T in Ts]
    if prop == "volume":
        m["volume"] = m["volume_" + spec.get("units", "mm3")] = sum(vol)
        m.update({f"volume.part_{i}": v for i, v in enumerate(vol)} if many else {})
    elif prop == "area":
        a = [float(np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum() / 2) for T in Ts]
        m["area"] = m["area_" + spec.get("units", "mm2")] = sum(a)
        m.update({f"area.part_{i}": v for i, v in enumerate(a)} if many else {})
    elif prop == "bbox":
        lo = np.min([T.min(axis=(0, 1)) for T in Ts], axis=0)
        hi = np.max([T.max(axis=(0, 1)) for T in Ts], axis=0)
        w = hi - lo
        for i, c in enumerate("xyz"):
            m[f"bbox.{c}min"], m[f"bbox.{c}max"] = lo[i], hi[i]
            m["bbox." + ("width", "depth", "height")[i]] = w[i]
            if spec.get("axis", "all") in (c, "all"):
                m[f"bbox.{c}"] = m[f"bbox.{c}_" + spec.get("units", "mm")] = w[i]
        m["bbox.diagonal"] = float(np.linalg.norm(w))
    elif prop == "mass":
        rho = spec.get("density_kgm3", 2700)
        m.update({"volume_mm3": sum(vol), "volume_m3": sum(vol) * 1e-9, "mass_kg": sum(vol) * 1e-9 * rho, "mass_g": sum(vol) * 1e-6 * rho, "density_kgm3": rho})
        m.update({f"mass_kg.part_{i}": v * 1e-9 * rho for i, v in enumerate(vol)} if many else {})
    elif prop == "centroid":
        cs = [centroid(T) for T in Ts]
        c = sum(v * q for v, q in zip(vol, cs)) / sum(vol)
        for i, x in enumerate("xyz"):
            m["centroid." + x] = c[i]
            m.update({f"centroid.part_{j}.{x}": q[i] for j, q in enumerate(cs)} if many else {})
    return m


def lookup(m, key):
    for k in (key, key.replace(".", "_"), key.replace("_", ".")):
        if k in m:
            return m[k]


def holds(v, rule):
    lim = float(rule["limit"])
    c = rule.get("comparison", "<=")
    return {"<=": v <= lim, "<": v < lim, ">=": v >= lim, ">": v > lim}[c] if c not in ("==", "~=") else abs(v - lim) <= rule.get("tolerance", 0.0)


def acceptance(rng, m, n=None):
    out = {}
    for _ in range(rng.randint(0, 4) if n is None else n):
        r = rng.random()
        if r < .15:
            out[rng.choice(["nothing", "stress.max", "bbox.q"])] = {"limit": 1.0, "comparison": rng.choice(OPS)}
            continue
        key = rng.choice(sorted(m))
        v = float(m[key])
        if r < .3:
            key = key.replace(".", "_") if rng.random() < .5 and "_" not in key else key
        c = rng.choice(OPS)
        rule = {"comparison": c}
        if c in ("==", "~="):
            t = abs(v) * rng.choice([1e-3, .1]) + 1e-3
            rule["limit"] = v + t * rng.choice([0, .5, -.9, 1.2, -3])
            rule["tolerance"] = t
        else:
            rule["limit"] = v + rng.choice([-1, 1]) * (abs(v) * rng.choice([1e-4, .2]) + 1e-4)
            if rng.random() < .6:    # mostly satisfied
                rule["limit"] = v + (1 if c[0] == "<" else -1) * abs(v - rule["limit"])
        if c == "<=" and rng.random() < .5:
            del rule["comparison"]
        r = rng.random()
        if r < .06:
            del rule["limit"]
        elif r < .2:
            rule["limit"] = repr(rule["limit"])
        if rng.random() < .2:
            rule["description"] = "why"
        out[key] = rule
    return out


def verdict(m, acc, find=None):
    if not acc:
        return "passed" if m else "pending"
    st = "passed"
    for k, r in acc.items():
        if r.get("limit") is None and not find:
            continue
        v = find(m, k) if find else lookup(m, k)
        if v is not None and r.get("limit") is None:
            continue
        if v is None:
            st = "pending" if st == "passed" else st
        elif not holds(v, r):
            return "failed"
    return st


def native(ctx, rng):
    n = rng.choice([1, 1, 2, 3])
    E = [solid(rng) for _ in range(n)]
    E = [e for e in E if g3.issolidclosed(e)]
    if not E:
        return
    opened = rng.random() < .08
    if opened:
        E[-1] = g3.solid(E[-1][1][:-1] if len(E[-1][1]) > 1 else [E[-1][1][0][:3] + [E[-1][1][0][3][:-1]] + E[-1][1][0][4:]], [], [])
    root = Path(tempfile.mkdtemp(dir=TMP)) / "p.ycpkg"
    man = P.create_package_from_entities(E, root, name="Demo", version="1")
    if rng.random() < .5:
        man.save()
    Ts = [M.tris(e) for e in E]
    prop = rng.choice(["volume", "area", "bbox", "mass", "centroid", "volume", "bbox"])
    spec = {"property": prop}
    if prop in ("volume", "area", "bbox") and rng.random() < .4:
        spec["units"] = rng.choice(["mm", "mm3", "cu"])
    if prop == "bbox" and rng.random() < .6:
        spec["axis"] = rng.choice(["x", "y", "z", "all"])
    if prop == "mass" and rng.random() < .7:
        spec["density_kgm3"] = rng.choice([1000, 7850.0, 1240])
    m = ref_metrics(prop, spec, Ts)
    acc = acceptance(rng, m)
    odd = rng.random()
    if odd < .05:
        spec["property"] = prop = rng.choice(["clearance", "distance", "nonsense"])
    elif odd < .1:
        k = rng.choice(sorted(m))
        acc = {k: {"limit": 0, "comparison": "=<"}}
    fails = prop in ("clearance", "distance", "nonsense") or .05 <= odd < .1 or opened and prop in ("volume", "mass", "centroid")
    want = "error" if fails else verdict(m, acc)
    pid = word(rng).replace(" ", "-")
    if rng.random() < .06:
        pid = "../../escape"
    d = {"id": pid, "kind": "geometric", "backend": rng.choice(["yapcad", "yapcad-native", "YapCAD"]), "geometry": {"source": "geometry/primary.json"}, "check": spec, "acceptance": acc}
    pd = root / "validation" / "plans"
    pd.mkdir(parents=True, exist_ok=True)
    pf = pd / "plan.yaml"
    pf.write_text(yaml.safe_dump(d, allow_unicode=True), encoding="utf-8")
    data = {"plan": d, "solids": len(E), "want": want}
    ctx.case([pid, prop, acc, Ts[0][0].tolist()])
    ctx.ev("native")
    geo = (root / "geometry" / "primary.json").read_bytes()
    arg = "validation/plans/plan.yaml" if rng.random() < .5 else pf
    if pid.startswith(".."):
        try:
            analyze_package(root, arg)
            ctx.viol("native:escape", "a plan id with .. is run", data)
        except ValueError:
            pass
        inside = [str(x) for x in root.parent.rglob("*") if root not in x.parents and x != root]
        return ctx.check(not inside, "native:escape", lambda: f"files outside the package: {inside}", data)
    runs = rng.choice([1, 1, 2, 3])
    for _ in range(runs):
        sp = analyze_package(root if rng.random() < .5 else str(root), arg)
    ctx.ev("status:" + want)
    ctx.check(sp == root / "validation" / "results" / pid / "summary.json" and sp.exists(), "record:path", lambda: f"summary in {sp}", data)
    ctx.check(geo == (root / "geometry" / "primary.json").read_bytes(), "record:geometry", "the analysis changed the geometry", data)
    s = json.loads(sp.read_text())
    rep = S.validate_result_file(sp)
    ctx.check(rep.valid, "record:valid", lambda: f"the written result is no valid result: {rep}", data)
    ctx.check(s["status"] == want, "native:status", lambda: f"status {s['status']} ({s.get('statusDetail')}), the criteria give {want}", data)
    ctx.check(s["plan_id"] == s["plan"] == pid, "record:plan", "plan id", data)
    man = PackageManifest.load(root)
    val = man.data["validation"]
    pe = [x for x in val["plans"] if x["id"] == pid]
    re_ = [x for x in val["results"] if x["plan"] == pid]
    ctx.check(len(pe) == len(val["plans"]) == 1 and len(re_) == len(val["results"]) == 1, "record:once", lambda: f"{runs} runs recorded {len(pe)} plan and {len(re_)} result entries", data)
    ctx.check(pe[0]["path"] == "validation/plans/plan.yaml" and pe[0]["kind"] == "geometric" and pe[0]["backend"] == d["backend"], "record:planentry", lambda: f"{pe[0]}", data)
    ctx.check(re_[0]["status"] == want and re_[0].get("timestamp"), "record:result", lambda: f"{re_[0].get('status')}", data)
    ctx.check(want == "error" or re_[0]["path"] == f"validation/results/{pid}/summary.json", "record:resultpath", lambda: f"{re_[0]['path']}", data)
    ctx.ev("record")
    if want == "error":
        return ctx.check(s.get("error") and not re_[0].get("metrics"), "native:error", lambda: f"{s}", data)
    got = s["metrics"]
    ctx.check(set(got) == set(m), "native:metrics", lambda: f"metrics {sorted(set(got) ^ set(m))} missing or extra", data)
    big = max(1.0, max(float(np.abs(T).max()) for T in Ts))
    for k in m:
        if k in got:
            ctx.ev("metric")
            tol = 1e-5 * (abs(m[k]) + (big if "bbox" in k or "centroid" in k else 0)) + 1e-12
            ctx.check(abs(got[k] - m[k]) <= tol, "native:" + prop, lambda: f"{k} = {got[k]}, the solids give {m[k]}", data)
    ctx.check(re_[0].get("metrics") == got, "record:metrics", "the manifest's metrics differ from the summary's", data)
    ar = s["acceptance_results"]
    ctx.check(set(ar) == set(acc), "native:results", lambda: f"results for {sorted(ar)}, criteria {sorted(acc)}", data)
    failed = []
    for k, r in acc.items():
        ctx.ev("criterion")
        v = lookup(m, k)
        ok = None if v is None or r.get("limit") is None else bool(holds(v, r))
        if ok is False:
            failed.append(k)
        q = ar.get(k, {})
        ctx.check(q.get("passed") is ok, "native:criterion", lambda: f"{k}: passed={q.get('passed')}, metric {v}, rule {r}", data)
        ctx.check(q.get("comparison") == r.get("comparison", "<=") and q.get("limit") == r.get("limit") and (q.get("value") is None) == (v is None) and (v is None or q["value"] == lookup(got, k)), "native:criterion", lambda: f"{k}: {q}", data)
    fc = s.get("failed_criteria", [])
    ctx.check(sorted(x["criterion"] for x in fc) == sorted(failed), "native:failed", lambda: f"failed criteria listed {fc}, violated {failed}", data)


# ---------------------------------------------------------------- backends and the stand-in solver

class _Reg:
    n = 0


def backend(ctx, rng):
    root = Path(tempfile.mkdtemp(dir=TMP)) / "p.ycpkg"
    P.create_package_from_entities([u.prism(3, 4, 5)], root, name="Demo", version="1").save()
    name = rng.choice(["Comsol", "abaqus", "my-solver"]) + str(rng.randrange(10 ** 6))
    d = {"id": "run-1", "kind": "structural", "backend": name, "loads": [{"type": "force", "id": "l"}], "boundaryConditions": [{"type": "fixed", "id": "b"}], "acceptance": {"x": {"limit": 1}}}
    ex = {}
    if rng.random() < .6:
        ex = {"mode": "remote", "transport": "ssh", "host": "cluster"}
        d["execution"] = ex
    for k in ("loads", "boundaryConditions", "acceptance"):
        if rng.random() < .4:
            del d[k]
    if rng.random() < .3:
        (root / "plans").mkdir(exist_ok=True)
        pf, rel = root / "plans" / "p.yaml", "plans/p.yaml"
    else:       # a plan outside the package
        pf = root.parent / "p.yaml"
        rel = str(pf)
    pf.write_text(yaml.safe_dump(d))
    data = {"plan": d}
    ctx.case([d, rel])
    st = rng.choice(["pending", "skipped"])
    sp = analyze_package(root, pf, status=st) if st != "pending" or rng.random() < .5 else analyze_package(root, pf)
    s = json.loads(sp.read_text())
    man = PackageManifest.load(root)
    r, p = man.data["validation"]["results"], man.data["validation"]["plans"]
    ctx.ev("record")
    ctx.check(s["status"] == st == r[0]["status"] and s["backend"] == name and s["kind"] == "structural" and len(r) == 1, "stage:status", lambda: f"{s}", data)
    for k in ("loads", "boundaryConditions", "acceptance"):
        ctx.check(s.get(k) == d.get(k), "stage:fields", lambda: f"{k}: {s.get(k)}", data)
    wex = {"mode": ex.get("mode", "local"), **({k: ex[k] for k in ("transport", "host") if k in ex})}
    ctx.check(s["execution"] == wex and p[0]["execution"] == wex, "stage:execution", lambda: f"{s['execution']} {p[0].get('execution')}", data)
    ctx.check(p == [{"id": "run-1", "path": rel, "kind": "structural", "backend": name, "execution": wex}], "stage:plan", lambda: f"{p}", data)
    ctx.check(S.validate_result_file(sp).valid, "stage:valid", "the written result is no valid result", data)
    # with an adapter registered under the name in another case
    seen = []
    out = rng.choice(["passed", "failed", "error", "skipped"])

    class Ad(A.AnalysisAdapter):
        name = "x"

        def run(self, manifest, plan, workspace, **kw):
            seen.append((manifest.root, plan.plan_id, Path(workspace)))
            art = Path(workspace) / "out.txt"
            art.write_text("x")
            return A.AnalysisResult(plan_id=plan.plan_id, status=out, metrics={"q": 2.5}, artifacts=[{"kind": "log", "path": "out.txt"}], notes="done")
    ctx.check(A.get_backend(name) is None, "registry", "unregistered backend found", data)
    A.register_backend(name.upper(), Ad)
    ctx.check(A.get_backend(name) is Ad and A.get_backend(name.lower()) is Ad and name.lower() in A.available_backends() and list(A.available_backends()) == sorted(A.available_backends()), "registry", "registered backend", data)
    sp = analyze_package(root, pf)
    from yapcad.package.analysis import base
    base._BACKENDS.pop(name.lower(), None) if hasattr(base, "_BACKENDS") else None
    ctx.check(len(seen) == 1 and seen[0] == (man.root, "run-1", root / "validation" / "results" / "run-1"), "adapter:run", lambda: f"adapter called with {seen}", data)
    s = json.loads(sp.read_text())
    r = PackageManifest.load(root).data["validation"]["results"]
    ctx.check(s["status"] == out and s["plan"] == "run-1" and s["backend"] == name and s.get("timestamp"), "adapter:summary", lambda: f"{s}", data)
    ctx.check(len(r) == 1 and r[0]["status"] == out and r[0]["metrics"] == {"q": 2.5} and r[0]["artifacts"] == [{"kind": "log", "path": "out.txt"}] and r[0]["notes"] == "done" and r[0]["path"] == "validation/results/run-1/summary.json", "adapter:record", lambda: f"{r}", data)
    try:
        A.register_backend("bad", dict)
        ctx.viol("registry", "a class that is no adapter was registered", data)
    except TypeError:
        pass


SOLVER = """#!/bin/sh
echo "solver output"; echo "complaint" >&2
if [ -f "%(d)s/dat" ]; then cp "%(d)s/dat" "$1.dat"; fi
[ -f "$1.inp" ] || exit 77
exit %(rc)d
"""


def calculix(ctx, rng):
    ws = Path(tempfile.mkdtemp(dir=TMP))
    R = rng.uniform
    o = {}
    ri, th = R(0, 30) if rng.random() < .8 else 0.0, R(1, 20)
    ro = ri + R(5, 60)
    nr, nz = rng.randint(1, 12), rng.randint(1, 4)
    src = rng.choice(["opts", "geom"])
    dims = {"inner_radius_mm": ri, "outer_radius_mm": ro, "thickness_mm": th}
    o.update({"radial_divisions": nr, "thickness_divisions": nz} if rng.random() < .8 else {})
    if not o:
        nr, nz = 24, 2
    F = R(10, 5000) if rng.random() < .7 else 2224.0
    if F != 2224.0:
        o[rng.choice(["thrust_n", "thrust_force_n"])] = F
    Em, nu = 68.9e3, .33
    if rng.random() < .5:
        Em, nu = R(1e3, 3e5), R(.1, .45)
        o.update(youngs_modulus_mpa=Em, poisson_ratio=nu)
    if src == "opts":
        o.update(dims)
    rc = rng.choice([0, 0, 0, 1, 3])
    has = rng.random() < .85
    us = []
    if has:
        L = ["", " displacements (vx,vy,vz) for set N_INNER and time  0.1000000E+01", ""]
        for i in range(rng.randint(0, 6)):
            v = [rng.gauss(0, 1) for _ in range(3)]
            us.append(abs(float(f"{v[1]:.6E}")))
            L.append(f"{i + 1:10d} " + " ".join(f"{x:.6E}" for x in v))
        (ws / "dat").write_text("\n".join(L) + "\n")
    m = {"displacement.max": max(us), "displacement.max_mm": max(us)} if us else {}
    acc = {}
    if m:
        for _ in range(rng.randint(0, 2)):
            k = rng.choice(["displacement.max", "displacement.max_mm", "stress.max"])
            q = acceptance(rng, m, 1)
            acc[k] = next(iter(q.values()))
    elif rng.random() < .7:
        acc = {"displacement.max": {"limit": 1.0}}
    sh = ws / "solver.sh"
    sh.write_text(SOLVER % {"d": ws, "rc": rc})
    sh.chmod(0o755)
    gone = rng.random() < .15
    pl = A.AnalysisPlan(plan_id=rng.choice(["job", "fea-1"]), kind="structural", backend="calculix", geometry=dims if src == "geom" else {}, backend_options=o, acceptance=acc,
                        execution=A.ExecutionConfig(command=str(ws / "nothere") if gone else str(sh)))
    wd = ws / "work" / "deep"
    data = {"options": o, "dims": dims, "rc": rc, "dat": us, "acceptance": acc, "gone": gone}
    ctx.case(data)
    r = A.get_backend("calculix")().run(None, pl, wd)
    ctx.ev("calculix")
    want = "skipped" if gone else "error" if rc else ("passed" if m else "pending") if not acc else verdict(m, acc, lambda m, k: m.get(k, m.get(k + "_mm")))
    ctx.check(r.status == want, "calculix:status", lambda: f"status {r.status}, exit code {rc}, displacements {us}: expected {want}", data)
    ctx.check(r.plan_id == pl.plan_id and (gone or r.summary["solver"]["returncode"] == rc), "calculix:summary", lambda: f"{r.summary}", data)
    if want not in ("skipped", "error"):
        ctx.check(set(r.metrics) == set(m) and all(abs(r.metrics[k] - m[k]) < 1e-9 for k in m), "calculix:displacement", lambda: f"{r.metrics}, the solver wrote {us}", data)
    for a in r.artifacts:
        ctx.check((wd / a["path"]).is_file(), "calculix:artifact", lambda: f"artifact {a} is not there", data)
    # the input file
    sec, cur = {}, None
    for ln in (wd / f"{pl.plan_id}.inp").read_text().splitlines():
        if ln.startswith("*"):
            cur = ln
            sec.setdefault(cur, [])
        else:
            sec[cur].append([x.strip() for x in ln.split(",")])
    N = {int(a): (float(r_), float(z)) for a, r_, z in sec["*NODE"]}
    El = {int(x[0]): [int(q) for q in x[1:]] for x in sec["*ELEMENT, TYPE=CAX4"]}
    tol = 1e-4 * ro
    area = 0.0
    for q in El.values():
        P_ = [N[i] for i in q]
        a = sum(P_[i][0] * P_[(i + 1) % 4][1] - P_[(i + 1) % 4][0] * P_[i][1] for i in range(4)) / 2
        ctx.check(a > 0, "calculix:mesh", lambda: f"element {q} has area {a}", data)
        area += a
    ctx.check(len(N) == (nr + 1) * (nz + 1) and len(El) == nr * nz and abs(area - (ro - ri) * th) < 1e-4 * ro * th and {i for q in El.values() for i in q} == set(N), "calculix:mesh", lambda: f"{len(N)} nodes, {len(El)} elements, area {area}; section {(ro - ri) * th}", data)
    ctx.check(sec["*ELASTIC"] == [[str(Em), str(nu)]], "calculix:material", lambda: f"{sec['*ELASTIC']}", data)
    sets = {k.split("NSET=")[-1]: {int(x) for row in v for x in row if x} for k, v in sec.items() if k.startswith("*NSET")}
    on = lambda R_: {i for i, (a, z) in N.items() if abs(a - R_) < tol}
    ctx.check(sets.get("N_OUTER") == on(ro) and sets.get("N_INNER") == on(ri), "calculix:sets", lambda: f"{sets}", data)
    ctx.check(sec["*BOUNDARY"] == [["N_OUTER", "1", "2"]], "calculix:support", lambda: f"{sec['*BOUNDARY']}", data)
    cl = sec["*CLOAD"]
    ctx.check({int(x[0]) for x in cl} == on(ri) and all(x[1] == "2" for x in cl) and abs(sum(float(x[2]) for x in cl) + F) < 1e-4 * F, "calculix:load", lambda: f"loads {cl}, thrust {F}", data)


# ---------------------------------------------------------------- face names

def faces(ctx, rng):
    s = gen3.solid(rng) if rng.random() < .5 else u.prism(rng.uniform(1, 5), rng.choice([2, 3.5]), rng.choice([2, 4]), g.point(0, 0, rng.uniform(-3, 3)))
    F = []
    for f in s[1]:
        T = M.tris(f)
        c = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]) / 2
        a = np.linalg.norm(c, axis=1)
        n = c.sum(axis=0)
        if np.linalg.norm(n) < 1e-6:
            n = None
        F.append((a.sum(), (a[:, None] * T.mean(axis=1)).sum(axis=0) / a.sum(), None if n is None else n / np.linalg.norm(n)))
    nm = FN.FaceNamer(s)
    ctx.ev("faces")
    ctx.case([len(F), F[0][1].tolist()])
    data = {"faces": [[a, c.tolist(), None if n is None else n.tolist()] for a, c, n in F]}
    ctx.check(len(nm.faces) == len(F) and all(f.index == i for i, f in enumerate(nm.faces)), "faces:count", lambda: f"{len(nm.faces)} faces of {len(F)}", data)
    for f, (a, c, n) in zip(nm.faces, F):
        ctx.check(abs(f.area - a) < 1e-6 * (1 + a) and np.abs(np.array(f.centroid) - c).max() < 1e-6 and (n is None or np.abs(np.array(f.normal) - n).max() < 1e-6), "faces:info", lambda: f"{f}: area {a}, centroid {c}, normal {n}", data)
    amb = [False]

    def near(x, lim, tol=1e-7):
        if abs(x - lim) < tol * (1 + abs(lim)):
            amb[0] = True

    def sel(d=0):
        k = rng.randrange(6 if d < 2 else 4)
        if k == 0:
            v = rng.choice([(0, 0, 1), (0, 0, -2), (3, 0, 0), (0, -1, 0), tuple(rng.gauss(0, 1) for _ in range(3))])
            t, r = rng.choice([5.0, 1.0, 30.0, 80.0]), rng.random() < .3
            def f(i):
                n = F[i][2]
                if n is None:
                    amb[0] = True
                    return False
                q = float(np.dot(n, v) / np.linalg.norm(v))
                ang = math.degrees(math.acos(max(-1, min(1, abs(q) if r else q))))
                near(ang, t, 1e-4)
                return ang <= t
            return FN.ByNormalSelector(v, t, r), f
        if k == 1:
            lo, hi = rng.choice([None, rng.uniform(0, 20)]), rng.choice([None, rng.uniform(5, 60)])
            w = rng.choice([None, "largest", "smallest"])
            def f(i):
                a = F[i][0]
                for x in (lo, hi):
                    if x is not None:
                        near(a, x)
                ext = {"largest": max, "smallest": min}.get(w, lambda q: a)(q[0] for q in F)
                if abs(abs(a / ext - 1) - 1e-6) < 9e-7:
                    amb[0] = True
                return (lo is None or a >= lo) and (hi is None or a <= hi) and abs(a - ext) <= 1e-6 * ext
            return FN.ByAreaSelector(min_area=lo, max_area=hi, largest=w == "largest", smallest=w == "smallest"), f
        if k in (2, 3):
            ax = rng.choice("xyzXYZ")
            w = rng.choice([None, "at_min", "at_max"])
            ab, be = (rng.choice([None, rng.uniform(-3, 3)]) for _ in range(2))
            tol = rng.choice([1e-6, .5])
            def f(i):
                j = "xyz".index(ax.lower())
                x = F[i][1][j]
                ext = {"at_min": min, "at_max": max}.get(w, lambda q: x)(q[1][j] for q in F)
                for lim in (ab, be):
                    if lim is not None:
                        near(x, lim)
                if w and abs(abs(x - ext) - tol) < 5e-7:
                    amb[0] = True
                return (ab is None or x > ab) and (be is None or x < be) and abs(x - ext) <= tol
            return FN.ByPositionSelector(axis=ax, at_min=w == "at_min", at_max=w == "at_max", above=ab, below=be, tolerance=tol), f
        if k == 4:
            hs = {"top_faces": (0, 0, 1), "bottom_faces": (0, 0, -1), "front_faces": (0, 1, 0), "back_faces": (0, -1, 0), "left_faces": (-1, 0, 0), "right_faces": (1, 0, 0)}
            h = rng.choice(sorted(hs))
            def f(i):
                n = F[i][2]
                if n is None:
                    amb[0] = True
                    return False
                ang = math.degrees(math.acos(max(-1, min(1, float(np.dot(n, hs[h]))))))
                near(ang, 5.0, 1e-4)
                return ang <= 5
            return getattr(FN, h)(), f
        subs = [sel(d + 1) for _ in range(rng.randint(1, 3))]
        mode = rng.choice(["and", "or", "AND", "OR"])
        return FN.CombinedSelector([x for x, _ in subs], mode), lambda i: (any if mode.lower() == "or" else all)([f(i) for _, f in subs])
    asg, want, last = {}, {}, {}
    for i in range(rng.randint(1, 5)):
        name = f"n{i}"
        if rng.random() < .2:
            L = rng.sample(range(len(F)), rng.randint(0, len(F)))
            asg[name], want[name] = list(L), list(L)
        else:
            s_, f = sel()
            asg[name], want[name] = s_, [j for j in range(len(F)) if f(j)]
        for j in want[name]:
            last[j] = name
        ctx.ev("select")
    if amb[0]:
        return
    got = nm.name_faces(asg)
    ctx.check(got == want, "faces:select", lambda: f"selected {got}, the selectors describe {want}", data)
    inv = {}
    for j in sorted(last):
        inv.setdefault(last[j], []).append(j)
    ctx.check(nm.get_named_faces() == inv, "faces:names", lambda: f"named {nm.get_named_faces()}, expected {inv}", data)
    md = nm.to_metadata()
    ctx.check(md["face_names"] == inv and [x["index"] for x in md["faces"]] == list(range(len(F))) and all(x["name"] == last.get(i) and x["area"] == nm.faces[i].area and tuple(x["normal"]) == tuple(nm.faces[i].normal) and tuple(x["centroid"]) == tuple(nm.faces[i].centroid) for i, x in enumerate(md["faces"])), "faces:metadata", lambda: f"{md}", data)


# ---------------------------------------------------------------- bolts from an assembly graph

SPECS = {"1-4-20-x-1in-button-head-shcs": (6.35, 25.4), "1-4-20-x-1-25in-button-head-shcs": (6.35, 31.75), "1-4-20-button-head-shcs": (6.35, 25.4), "m5-x-16-shcs": (5.0, 16.0), "m5-x-20-shcs": (5.0, 20.0), "m6-x-20-shcs": (6.0, 20.0)}


def stiff(spec):
    d = SPECS.get(spec, (5.0, 20.0))[0] * 1e-3
    A_ = math.pi * d * d / 4
    return 200e9 * A_ / .012, 80e9 * A_ / .012


def qmat(q):
    x, y, z, w = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def bolts(ctx, rng):
    n = rng.randint(1, 6)
    ids = [f"part-{i}" for i in range(n)]
    W = {"world": np.eye(4)}
    ifs, parts = [], []
    spec_yaml = {}
    for i, p in enumerate(ids):
        par = "world" if i == 0 else rng.choice(ids[:i])
        t = [round(rng.uniform(-300, 300), 3) for _ in range(3)]
        q = None
        if rng.random() < .6:
            v = np.array([rng.gauss(0, 1) for _ in range(4)])
            q = (v / np.linalg.norm(v)).tolist()
        X = np.eye(4)
        X[:3, 3] = t
        if q:
            X[:3, :3] = qmat(q)
        W[p] = W[par] @ X
        f = {"id": f"if-{i}", "parent_part": par, "child_part": p}
        if rng.random() < .9 or any(t):
            f["origin"] = t
        if q:
            f["orientation"] = q
        k = rng.randint(1, 8)
        if rng.random() < .7:
            f["bolt_pattern"] = {"pcd_mm": rng.uniform(20, 200), "n_bolts": k, "bolt_spec": rng.choice(sorted(SPECS) + ["PLACEHOLDER-x"] + ["m9-odd"] * (rng.random() < .3))}
            if rng.random() < .6:
                f["bolt_pattern"]["access_direction"] = [rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 2)]
            if rng.random() < .5:
                f["bolt_pattern"]["world_z_mm"] = rng.uniform(-500, 500)
        ifs.append(f)
        pt = {"id": p, "datums": []}
        for side in ("top", "bot"):
            if rng.random() < .6:
                z = rng.uniform(50, 300) * (1 if side == "top" else -1)
                if rng.random() < .8:
                    pt["datums"].append({"name": f"{side}_bolt_circle", "origin": {"x": 0, "y": 0, "z": z}})
                rad = rng.random() < .5
                for j in range(rng.randint(1, 9)):
                    if rng.random() < .12:
                        continue
                    a = rng.uniform(0, 2 * math.pi)
                    d = {"name": f"{side}_bolt_hole_{j}", "origin": {"x": 40 * math.cos(a), "y": 40 * math.sin(a), "z": z}}
                    if rng.random() < .93:
                        kk = rng.choice([1, 2.5])
                        d["direction"] = {"x": -kk * math.cos(a), "y": -kk * math.sin(a), "z": 0.0} if rad else {"x": 0.0, "y": 0.0, "z": rng.choice([1, -1]) * kk}
                    pt["datums"].append(d)
        rng.shuffle(pt["datums"])
        parts.append(pt)
    for f in ifs:
        if f.get("bolt_pattern") and rng.random() < .5:
            a, b = f["parent_part"], f["child_part"]
            if rng.random() < .4:
                a, b = b, a
            gsp = {"bolt_circle_ref": rng.choice(["top_bolt_circle", "bot_bolt_circle"]), "mates_to": {"part": b}}
            if rng.random() < .7:
                gsp["orientation"] = rng.choice(["axial", "radial", "Radial"])
            if rng.random() < .6:
                gsp["head_axial_offset_mm"] = rng.uniform(-5, 5)
            if rng.random() < .6:
                gsp["head_radial_offset_mm"] = rng.uniform(-5, 5)
            if rng.random() < .6:
                gsp["shank_length_mm"] = rng.choice([0, rng.uniform(5, 40)])
            spec_yaml.setdefault(a, {})[f"g{len(spec_yaml.get(a, {}))}"] = gsp
    if rng.random() < .2:   # a part outside the chain
        ifs.append({"id": "if-loose", "parent_part": "nowhere", "child_part": "loose", "origin": [1, 2, 3], "bolt_pattern": {"pcd_mm": 50, "n_bolts": 3, "bolt_spec": "m5-x-20-shcs"}})
    order = list(range(len(ifs)))
    rng.shuffle(order)
    cases = []
    for i in range(rng.randint(0, 3)):
        c = {"id": f"LC-{i}", "magnitude_n": rng.uniform(0, 500), "direction": [rng.gauss(0, 1) for _ in range(3)], "attach": {"part": rng.choice(ids), "position": [rng.uniform(-9, 9) for _ in range(3)]}}
        for k in ("magnitude_n", "direction"):
            if rng.random() < .15:
                del c[k]
        if rng.random() < .4:
            c["attach"].update(interface="if-0", bolt_index=2, clock_deg=90.0)
        if rng.random() < .2:
            c["attach"] = {}
        if rng.random() < .4:
            c["coordinate_frame"] = "mesh"
        cases.append(c)
    G = {"interfaces": [ifs[i] for i in order], "parts": parts, "load_cases": cases}
    top = Path(tempfile.mkdtemp(dir=TMP))
    gd = top / "assembly" / "graph.json"
    gd.mkdir(parents=True)
    gp = gd / "graph.json"
    gp.write_text(json.dumps(G))
    if spec_yaml:
        (rng.choice([gd, gd.parent, top]) / "bolts_per_part.yaml").write_text(yaml.safe_dump({"bolts_per_part": spec_yaml}))
    data = {"graph": G, "yaml": spec_yaml}
    ctx.case([len(ifs), len(cases), ifs[0]])
    ctx.ev("bolts")
    tr = MF.solve_world_transforms(G)
    ctx.check(set(tr) == set(W), "bolts:parts", lambda: f"placed {sorted(tr)}, connected to world {sorted(W)}", data)
    for p in W:
        if p in tr:
            t, q = tr[p]
            ctx.check(np.abs(np.array(t) - W[p][:3, 3]).max() < 1e-6 and np.abs(qmat(q) - W[p][:3, :3]).max() < 1e-6, "bolts:transform", lambda: f"{p} at {t} {q}, composed {W[p].tolist()}", data)
    lc = rng.choice(cases)["id"] if cases and rng.random() < .8 else None
    orig = {f["id"]: tuple(rng.uniform(-50, 50) for _ in range(3)) for f in ifs if rng.random() < .3} if rng.random() < .4 else None
    se, sys.stderr = sys.stderr, open(os.devnull, "w")
    try:
        st = MF.prepare(gp, lc, interface_origins_mm=orig) if orig else MF.prepare(str(gp), load_case_id=lc)
    finally:
        sys.stderr.close()
        sys.stderr = se
    used = [f for f in G["interfaces"] if f.get("bolt_pattern") and not f["bolt_pattern"]["bolt_spec"].startswith("PLACEHOLDER")]
    ctx.check([f["id"] for f in st.raw_interfaces] == [f["id"] for f in used], "bolts:interfaces", "interfaces with a usable bolt pattern", data)
    D = {p["id"]: {d["name"]: d for d in p["datums"]} for p in parts}
    vec = lambda o: np.array([o["x"], o["y"], o["z"]], float)
    want = []
    for f in used:
        bp = f["bolt_pattern"]
        pp, cp = f["parent_part"], f["child_part"]
        owner, gsp = None, {}
        for a, b in ((pp, cp), (cp, pp)):
            for s_ in spec_yaml.get(a, {}).values():
                if owner is None and s_["mates_to"]["part"] == b:
                    owner, gsp = a, s_
        if owner is None:
            owner = pp
            z = f.get("origin", [0, 0, 0])[2]
            tc, bc = (D.get(pp, {}).get(f"{s_}_bolt_circle") for s_ in ("top", "bot"))
            side = "top" if tc and (not bc or abs(z - tc["origin"]["z"]) <= abs(z - bc["origin"]["z"])) else "bot"
        else:
            side = "top" if "top" in gsp["bolt_circle_ref"] else "bot"
        holes = [(j, vec(d["origin"]), vec(d["direction"]) / np.linalg.norm(vec(d["direction"]))) for j in range(64) for d in [D.get(owner, {}).get(f"{side}_bolt_hole_{j}")] if d and "direction" in d] if owner in W else []
        ks = stiff(bp["bolt_spec"])
        if holes:
            ori = gsp.get("orientation", "").lower() or ("axial" if abs(holes[0][2][2]) > .8 else "radial")
            L = gsp.get("shank_length_mm", 0) or SPECS.get(bp["bolt_spec"], (0, 25.4))[1]
            for j, o, d in holes[:bp["n_bolts"]]:
                h = o - gsp.get("head_radial_offset_mm", 0) * d if ori == "radial" else o + gsp.get("head_axial_offset_mm", 0) * d
                X = W[owner]
                want.append((f["id"], j, pp, cp, X[:3, :3] @ h + X[:3, 3], X[:3, :3] @ (h + L * d) + X[:3, 3], X[:3, :3] @ d, bp, math.degrees(math.atan2(o[1], o[0])) % 360, ks))
        else:
            o = np.array((orig or {}).get(f["id"]) or (0, 0, bp.get("world_z_mm", 0.0)), float)
            ad = np.array(bp.get("access_direction", [0, 0, 1]), float)
            for j in range(bp["n_bolts"]):
                th = 2 * math.pi * j / bp["n_bolts"]
                x = o + bp["pcd_mm"] / 2 * np.array([math.cos(th), math.sin(th), 0])
                want.append((f["id"], j, pp, cp, x, x, ad / np.linalg.norm(ad), bp, math.degrees(th), ks))
    ctx.check([(b.interface_id, b.bolt_index, b.parent_part, b.child_part) for b in st.bolts] == [w[:4] for w in want], "bolts:list", lambda: f"bolts {[(b.interface_id, b.bolt_index) for b in st.bolts]}, expected {[w[:2] for w in want]}", data)
    for b, w in zip(st.bolts, want):
        ctx.ev("bolt")
        ok = np.abs(np.array(b.parent_world_mm) - w[4]).max() < 1e-6 and np.abs(np.array(b.child_world_mm) - w[5]).max() < 1e-6
        ctx.check(ok, "bolts:place", lambda: f"{w[0]} bolt {w[1]}: {b.parent_world_mm} to {b.child_world_mm}, expected {w[4]} to {w[5]}", data)
        ctx.check(np.abs(np.array(b.axis_unit) - w[6]).max() < 1e-6, "bolts:axis", lambda: f"{w[0]} bolt {w[1]}: axis {b.axis_unit}, expected {w[6]}", data)
        dc = abs(b.clock_deg - w[8]) % 360
        ctx.check(min(dc, 360 - dc) < 1e-6 and b.pcd_mm == w[7]["pcd_mm"] and b.bolt_spec == w[7]["bolt_spec"], "bolts:clock", lambda: f"clock {b.clock_deg}, expected {w[8]}", data)
        ctx.check(abs(b.k_axial_N_per_m / w[9][0] - 1) < 1e-9 and abs(b.k_shear_N_per_m / w[9][1] - 1) < 1e-9, "bolts:stiffness", lambda: f"{b.k_axial_N_per_m} {b.k_shear_N_per_m}, expected {w[9]}", data)
    ctx.check(MF.list_load_cases(G) == cases, "load:list", "load cases", data)
    if lc:
        c = next(x for x in cases if x["id"] == lc)
        a = st.load_attach
        d = np.array(c.get("direction", [1.0, 0, 0]), float)
        at = c["attach"]
        ctx.ev("load")
        ctx.check(a.load_case_id == lc == st.load_case_id and st.raw_load_case == c == a.raw and a.part == at.get("part", "_assembly") and a.interface_id == at.get("interface") and a.bolt_index == at.get("bolt_index") and a.clock_deg == at.get("clock_deg") and a.coordinate_frame == c.get("coordinate_frame", "vehicle"), "load:fields", lambda: f"{a}", data)
        ctx.check(list(a.position_mm) == at.get("position", [0.0, 0.0, 0.0]) and a.magnitude_n == c.get("magnitude_n", 0.0) and np.abs(np.array(a.direction_unit) - d / np.linalg.norm(d)).max() < 1e-9, "load:vector", lambda: f"{a}", data)
    else:
        ctx.check(st.load_attach is None and st.load_case_id is None, "load:none", "a load case without one being asked for", data)
    for fn in (lambda: MF.prepare(gp, "LC-none"), lambda: MF.get_load_case(G, "LC-none"), lambda: MF.get_interface(G, "no")):
        try:
            fn()
            ctx.viol("load:missing", "a missing load case or interface is found", data)
        except KeyError:
            pass
    f = rng.choice(ifs)
    ctx.check(MF.get_interface(G, f["id"]) == f, "load:interface", "get_interface", data)
    v = [rng.uniform(-5, 5) for _ in range(3)]
    ctx.check(MF.vehicle_to_mesh_position(v) == (v[1], v[2], v[0]) == MF.vehicle_to_mesh_direction(v), "load:frame", "vehicle to mesh frame", data)
    if rng.random() < .1:
        bad = gd / "bad.json"
        bad.write_text('{"parts": []}')
        for p, ex in ((bad, ValueError), (gd / "gone.json", FileNotFoundError)):
            try:
                MF.load_graph(p)
                ctx.viol("load:graph", "no graph is loaded", str(p))
            except ex:
                pass
    shutil.rmtree(top, ignore_errors=True)


GROUPS = {"plan": (plan, 260, 6000), "schema": (schema, 900, 30000), "native": (native, 170, 2500), "backend": (backend, 40, 600), "calculix": (calculix, 110, 2000), "faces": (faces, 150, 4000), "bolts": (bolts, 110, 3000)}

if __name__ == "__main__":
    vf.main(globals())
