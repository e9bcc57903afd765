import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json, logging, math, random, shutil, tempfile
import vf

PROP = "C26"
LEVEL = "exploration"
META = dict(
    title="Assemblies: datums move with their parts and constraints are judged exactly",
    statement="A datum is a well-formed point, axis, plane, circle or frame or it is refused; transforming it (numpy array, nested list or yapCAD matrix alike) moves its origin and turns its unit directions, composes, and leaves the original untouched. Adding parts, mates, constraints, load cases and bolt patterns refuses duplicates, unknown parts or datums and incompatible mates with AssemblyError, leaving the assembly as it was. validate() judges every constraint (facing, parallel, perpendicular, at-radius, tangent, radial, custom) on the datum in world coordinates: it passes exactly when the angle or distance is within tolerance, missing parameters fail with a message, and is_valid, failed and warning lists follow severity; validate_and_raise() raises exactly when an error-severity constraint fails and names it, and report() states the same verdict. Imported transforms replace the parts' poses. The datum registry returns exactly the datums registered last or loaded from surrogate JSON (also by part name or sidecar), KeyError otherwise, also after failed lookups; datum frames are rigid with the datum's direction as Z. The DSL's assembly built-ins lift the datums declared in @meta and agree with the Python API.",
    over=["inputs", "histories"], q="for all datums, poses, constraints and sequences of registrations",
    why="Validation that looks at parts before they were placed, or a registry that serves stale datums, passes assemblies that cannot be built.",
    files=["src/yapcad/assembly/assembly.py", "src/yapcad/assembly/datum.py", "src/yapcad/assembly/constraint.py", "src/yapcad/assembly/datum_registry.py", "src/yapcad/dsl/runtime/builtins.py"],
    mech=[("Assembly", "src/yapcad/assembly/assembly.py"), ("Datum", "src/yapcad/assembly/datum.py"), ("Constraint", "src/yapcad/assembly/constraint.py"), ("DatumRegistry", "src/yapcad/assembly/datum_registry.py"), ("_register_assembly_functions", "src/yapcad/dsl/runtime/builtins.py")],
    technique="random assemblies and registration histories checked against an independent geometric evaluator and a reference model after every operation",
    note="Exploration. Verdicts within 1e-6 of the tolerance are not judged. Tangency and radial checks are in the XY projection, as documented. Degrees of freedom follow the module's own simplified table.",
)
RULE = "random datums, rigid poses, constraints, assemblies and registry histories; distinct by the recipe"
REQUIRE = {"datum": 800, "datum:refused": 120, "transform": 1500, "constraint": 4000, "pass": 800, "fail": 1200, "missing": 400, "helper": 800, "assembly": 300, "validated": 400, "raised": 120, "valid": 100, "refused": 900,
           "imported": 80, "dof": 300, "registry": 2500, "registry:miss": 400, "registry:json": 300, "registry:late": 80, "registry:alias": 80, "frame": 500, "dsl": 200, "lifted": 400, "warning": 80}
WALL_QUICK = 200


def init():
    global np, A, AE, D, DT, PD, C, CT, M, MT, REG, RG, CO, Matrix
    import numpy as np
    from yapcad.assembly.assembly import Assembly as A, AssemblyError as AE
    from yapcad.assembly.datum import Datum as D, DatumType as DT, PartDefinition as PD
    from yapcad.assembly import constraint as CO, datum_registry as RG
    from yapcad.assembly.constraint import Constraint as C, ConstraintType as CT
    from yapcad.assembly.mate import Mate as M, MateType as MT
    from yapcad.assembly.datum_registry import DatumRegistry as REG
    from yapcad.xform import Matrix
    logging.disable(logging.CRITICAL)


def unit(v):
    n = math.sqrt(sum(c * c for c in v))
    return [c / n for c in v]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nrm(a):
    return math.sqrt(dot(a, a))


def ang(a, b):
    return math.degrees(math.atan2(nrm(cross(a, b)), dot(a, b)))


def rdir(rng):
    if rng.random() < 0.4:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1, -1])
        return v
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if nrm(v) > 0.3:
            return v


def nudge(rng, v, deg):
    v = unit(v)
    w = rdir(rng)
    while nrm(cross(unit(w), v)) < 0.2:
        w = [rng.gauss(0, 1) for _ in range(3)]
    w = unit(cross(v, w))
    c = cross(w, v)
    a = math.radians(deg)
    return [math.cos(a) * v[i] + math.sin(a) * c[i] for i in range(3)]


def pt(rng, s=50):
    return [rng.choice([0, rng.randint(-20, 20)]) if rng.random() < 0.3 else rng.uniform(-s, s) for _ in range(3)]


KINDS = ["point", "axis", "plane", "circle", "frame"]


def spec(rng, name, kind=None, v=None, o=None):
    kind = kind or rng.choice(KINDS)
    v = v or rdir(rng)
    s = dict(name=name, datum_type=DT(kind), origin=(o or pt(rng)) + ([1] if rng.random() < 0.5 else []))
    w = rng.random() < 0.5
    if kind == "axis":
        s["direction"] = list(v) + ([0] if w else [])
    elif kind in ("plane", "circle"):
        s["normal"] = list(v) + ([0] if w else [])
    elif kind == "frame":
        x = unit(v)
        y = unit(cross(x, [1, 0, 0] if abs(x[0]) < 0.8 else [0, 1, 0]))
        s.update(x_axis=x, y_axis=y)
    if kind == "circle":
        s["radius"] = rng.uniform(0.5, 40)
    return s


def rigid(rng, s=60):
    q = unit([rng.gauss(0, 1) for _ in range(4)])
    k = rng.random()
    if k < 0.2:
        q = [1.0, 0, 0, 0]
    elif k < 0.4:
        q = unit([math.sqrt(0.5), 0, 0, math.sqrt(0.5)])
    w, x, y, z = q
    T = np.eye(4)
    T[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    T[:3, 3] = pt(rng, s)
    return T


def moved(T, p, w):
    return [sum(float(T[i][j]) * float(p[j]) for j in range(3)) + w * float(T[i][3]) for i in range(3)]


VECS = ("direction", "normal", "x_axis", "y_axis")


def same(d, e, tol=1e-7):
    """datum d equals the plain description e: {kind, origin, vecs..., radius}; directions compared as unit vectors"""
    if d.datum_type.value != e["kind"] or d.radius != e.get("radius"):
        return "kind or radius"
    if len(d.origin) != 4 or abs(d.origin[3] - 1) > 1e-9 or max(abs(x - y) for x, y in zip(d.origin, e["origin"])) > tol * (1 + max(map(abs, e["origin"]))):
        return "origin %s" % (d.origin,)
    for k in VECS:
        v = getattr(d, k)
        if (v is None) != (e.get(k) is None):
            return k
        if v is not None and (len(v) != 4 or abs(v[3]) > 1e-9 or max(abs(x - y) for x, y in zip(unit(v[:3]), unit(e[k]))) > tol):
            return "%s %s" % (k, v)


def desc(s):
    return dict(kind=s["datum_type"].value, origin=[float(c) for c in s["origin"][:3]], radius=s.get("radius"), **{k: [float(c) for c in s[k][:3]] if s.get(k) else None for k in VECS})


def dmoved(e, T):
    return dict(kind=e["kind"], radius=e["radius"], origin=moved(T, e["origin"], 1), **{k: moved(T, e[k], 0) if e[k] else None for k in VECS})


def g_datum(ctx, rng):
    s = spec(rng, "d")
    ctx.case(("D", repr(s)))
    k = rng.random()
    if k < 0.25:
        # malformed definitions
        bad = dict(s)
        need = {"axis": "direction", "plane": "normal", "circle": rng.choice(["normal", "radius"]), "frame": rng.choice(["x_axis", "y_axis"])}.get(s["datum_type"].value)
        if need:
            bad[need] = rng.choice([None, 0 if need == "radius" else [0, 0, 0], -2.0 if need == "radius" else [0.0, 0.0, 0.0, 0.0]])
            ctx.ev("datum:refused")
            try:
                D(**bad)
                ctx.viol("datum-malformed", "a malformed datum is accepted", {"spec": repr(bad)})
            except ValueError:
                pass
    d = D(**s)
    e = desc(s)
    ctx.ev("datum")
    m = same(d, e)
    ctx.check(m is None, "datum-fields", "a datum does not carry what it was given: %s" % m, {"spec": repr(s), "d": repr(d)})
    T, U = rigid(rng), rigid(rng)
    before = copy.deepcopy(d)
    for form in (T, T.tolist(), Matrix(T.tolist())):
        ctx.ev("transform")
        dt = d.transform(form)
        m = same(dt, dmoved(e, T))
        ctx.check(m is None, "datum-transform", "a transformed datum is elsewhere: %s" % m, {"d": repr(d), "T": T.tolist(), "form": type(form).__name__, "got": repr(dt)})
    ctx.check(d == before, "datum-transform", "transforming a datum changed it", {"d": repr(d)})
    m = same(d.transform(T).transform(U), dmoved(dmoved(e, T), U), 1e-6)
    ctx.check(m is None, "datum-transform", "transforms of datums do not compose: %s" % m, {"d": repr(d)})
    for v in VECS:
        w = getattr(d.transform(T), v)
        ctx.check(w is None or abs(nrm(w[:3]) - 1) < 1e-9, "datum-transform", "a transformed direction is not a unit vector", {"d": repr(d)})
    # frames
    ctx.ev("frame")
    F = RG.datum_to_transform_matrix(d)
    z = {"axis": d.direction, "plane": d.normal, "circle": d.normal, "frame": d.x_axis and cross(d.x_axis[:3], d.y_axis[:3]), "point": [0, 0, 1]}[e["kind"]]
    ok = np.abs(F[:3, :3].T @ F[:3, :3] - np.eye(3)).max() < 1e-9 and np.linalg.det(F[:3, :3]) > 0 and np.abs(F[:3, 3] - e["origin"]).max() < 1e-9 and np.abs(F[:3, 2] - unit(z[:3])).max() < 1e-9 and np.abs(F[3] - [0, 0, 0, 1]).max() == 0
    if e["kind"] == "frame":
        ok = ok and np.abs(F[:3, 0] - d.x_axis[:3]).max() < 1e-9
    ctx.check(ok, "datum-frame", "a datum's frame is not rigid with the datum's origin and direction", {"d": repr(d), "F": F.tolist()})
    # parts
    p = PD("p")
    p.add_datum(d)
    others = []
    for i in range(rng.randint(0, 3)):
        o = spec(rng, "e%d" % i, o=list(d.origin[:3]) if rng.random() < 0.5 else None, kind=e["kind"] if rng.random() < 0.5 else None)
        p.add_datum(D(**o))
        others.append(o)
    ctx.ev("refused")
    try:
        p.add_datum(D("d", DT.POINT))
        ctx.viol("part-duplicate", "a second datum of the same name is accepted", {})
    except ValueError:
        pass
    ctx.check(p.datums["d"] is d and list(p.datums) == ["d"] + [o["name"] for o in others] and p.get_datum("d") is d, "part-datums", "a part does not hold its datums", {})
    try:
        p.get_datum("zz")
        ctx.viol("part-datums", "an unknown datum was returned", {})
    except KeyError:
        pass
    al = [("d", e)] + [(o["name"], desc(o)) for o in others]
    dup = sum(1 for i in range(len(al)) for j in range(i) if al[i][1]["kind"] == al[j][1]["kind"] and math.dist(al[i][1]["origin"], al[j][1]["origin"]) < 1e-9)
    got = sum("identical type" in s for s in p.validate_datums())
    ctx.check(got == dup, "part-validate", "validate_datums() does not report exactly the duplicated datums", {"got": p.validate_datums(), "want": dup})


AXES = {"+x": [1, 0, 0], "-x": [-1, 0, 0], "+y": [0, 1, 0], "-y": [0, -1, 0], "+z": [0, 0, 1], "-z": [0, 0, -1]}


def mkcon(rng, name, e, part="P", datum="d"):
    """a constraint aimed at the (world) description e, near its decision boundary"""
    k = rng.choice(["FACING", "PARALLEL_TO", "PERPENDICULAR_TO", "AT_RADIUS", "TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER"])
    kw = dict(tolerance_deg=rng.choice([1.0, 0.5, 5.0, 30.0, 0.1, 0.01]), tolerance_mm=rng.choice([0.1, 0.01, 2.0]))
    v = e["direction"] or e["normal"]
    u = rng.random()
    deg = rng.choice([0, 0.9, 1.1, 0.999, 1.001, 2]) * kw["tolerance_deg"]
    if k == "FACING":
        kw["direction"] = rng.choice(list(AXES)) if u < 0.9 else rng.choice(["+Z", "-X"])
    elif k == "PARALLEL_TO":
        kw["axis"] = tuple(c * rng.choice([1, -2]) for c in nudge(rng, v, deg)) if v and u < 0.8 else tuple(rdir(rng))
    elif k == "PERPENDICULAR_TO":
        if v and u < 0.8:
            w = unit(cross(v, [1, 0, 0] if abs(unit(v)[0]) < 0.8 else [0, 1, 0]))
            a = math.radians(rng.choice([1, -1]) * deg)
            x = unit(v)
            kw["axis"] = tuple(math.cos(a) * w[i] + math.sin(a) * x[i] for i in range(3))
        else:
            kw["axis"] = tuple(rdir(rng))
    elif k == "AT_RADIUS":
        c = pt(rng)
        kw["center"] = tuple(c)
        r = math.hypot(e["origin"][0] - c[0], e["origin"][1] - c[1])
        kw["radius"] = abs(r + rng.choice([0, 0.9, -0.9, 1.1, -1.1, 5]) * kw["tolerance_mm"])
    else:
        c = pt(rng)
        if v and u < 0.85:
            # centre chosen so that the direction is nearly radial/tangent there
            h = [v[0], v[1]]
            n = math.hypot(*h)
            if n > 1e-3:
                a = math.radians(deg * rng.choice([1, -1]) + (rng.choice([0, 180]) if k[0] == "R" else rng.choice([90, -90])))
                h = [c_ / n for c_ in h]
                r = rng.uniform(1, 60)
                c = [e["origin"][0] - r * (math.cos(a) * h[0] - math.sin(a) * h[1]), e["origin"][1] - r * (math.sin(a) * h[0] + math.cos(a) * h[1]), rng.uniform(-9, 9)]
        kw["center"] = tuple(c)
        if k[0] == "T":
            kw["radius"] = rng.uniform(1, 90)
        else:
            kw["direction"] = rng.choice(["inward", "outward"])
    return C(name, CT[k], part, datum, **kw)


def judge(c, e):
    """(verdict or None when too close, expected error value or None)"""
    k = c.constraint_type.name
    o = e["origin"]

    def by(x, tol):
        return None if abs(x - tol) < 1e-6 else x <= tol
    if k == "FACING":
        if not e["normal"]:
            return False, None
        a = ang(e["normal"], AXES[c.direction.lower()])
        return by(a, c.tolerance_deg), a
    v = e["direction"] or e["normal"]
    if k == "AT_RADIUS":
        x = abs(math.hypot(o[0] - c.center[0], o[1] - c.center[1]) - c.radius)
        return by(x, c.tolerance_mm), x
    if k in ("PARALLEL_TO", "PERPENDICULAR_TO"):
        if not v:
            return False, None
        a = ang(v, c.axis[:3])
        a = min(a, 180 - a) if k[1] == "A" else abs(90 - a)
        return by(a, c.tolerance_deg), a
    r = [o[0] - c.center[0], o[1] - c.center[1], 0.0]
    if nrm(r) < 1e-6:
        return (False, None) if nrm(r) < 1e-12 else (None, None)
    if not v:
        return False, None
    if k[0] == "T":
        h = [v[0], v[1], 0.0]
        if nrm(h) < 1e-6 * nrm(v):
            return (True, 0.0) if nrm(h) == 0 else (None, None)
        a = abs(90 - ang(r, h))
        return by(a, c.tolerance_deg), a
    v = e["normal"] or e["direction"]
    a = ang(v, r if c.direction == "outward" else [-x for x in r])
    return by(a, c.tolerance_deg), a


def g_constraint(ctx, rng):
    s = spec(rng, "d", rng.choice(["axis", "plane", "circle", "plane", "axis", "point"]))
    e = desc(s)
    d = D(**s)
    T = rigid(rng) if rng.random() < 0.5 else None
    if T is not None:
        d, e = d.transform(T), dmoved(e, T)
    for _ in range(4):
        c = mkcon(rng, "c", e)
        ctx.case(("C", repr(c)))
        ctx.ev("constraint")
        r = c.evaluate(d)
        want, err = judge(c, e)
        info = {"c": repr(c), "d": repr(d), "want": want, "err": err, "got": str(r)}
        if want is not None:
            ctx.ev("pass" if want else "fail")
            ctx.check(bool(r.passed) == want, "verdict-" + c.constraint_type.name, "a constraint's verdict is not the geometry's", info)
            if err is not None and c.constraint_type != CT.RADIAL_FROM_CENTER:
                ctx.check(abs(r.error_value - err) < 2e-3 if "RADIUS" not in c.constraint_type.name else abs(r.error_value - err) < 1e-6 * (1 + err), "error-value", "the reported error is not the true deviation", info)
            elif err is not None and not want:
                ctx.check(abs(r.error_value - err) < 2e-3, "error-value", "the reported radial error is not the true deviation", info)
        ctx.check(bool(r.error_message), "message", "a result carries no message", info)
        # the plain helpers say the same
        v = e["direction"] or e["normal"]
        if v and c.constraint_type == CT.TANGENT_TO_CIRCLE and want is not None:
            ctx.ev("helper")
            ctx.check(bool(CO.is_tangent_to_circle(tuple(e["origin"]), tuple(v), c.center, c.radius, c.tolerance_deg)) == want, "helper-tangent", "is_tangent_to_circle() disagrees with the geometry", info)
        if v and c.constraint_type == CT.RADIAL_FROM_CENTER and want is not None:
            ctx.ev("helper")
            ctx.check(bool(CO.is_radial_from_center(tuple(e["origin"]), tuple(v), c.center, c.direction, c.tolerance_deg)) == want, "helper-radial", "is_radial_from_center() disagrees with the geometry", info)
        # parameters left out
        k = c.constraint_type.name
        drop = {"FACING": ["direction"], "PARALLEL_TO": ["axis"], "PERPENDICULAR_TO": ["axis"], "AT_RADIUS": ["center", "radius"], "TANGENT_TO_CIRCLE": ["center", "radius"], "RADIAL_FROM_CENTER": ["center", "direction"]}[k]
        m = copy.copy(c)
        setattr(m, rng.choice(drop), None)
        ctx.ev("missing")
        r = m.evaluate(d)
        ctx.check(not r.passed and bool(r.error_message), "missing", "a constraint without its parameters passes or says nothing", {"c": repr(m), "r": str(r)})
    u, v = rdir(rng), rdir(rng)
    p, q = pt(rng), pt(rng)
    ctx.ev("helper")
    ctx.check(abs(CO.angle_between_vectors(tuple(u), tuple(v)) - ang(u, v)) < 1e-4 and abs(CO.distance_to_point(tuple(p), tuple(q)) - math.dist(p, q)) < 1e-9 and abs(CO.dot_product(tuple(u), tuple(v)) - dot(u, v)) < 1e-9,
              "helper", "angle, distance or dot helper is wrong", {"u": u, "v": v})
    for fn, ok in ((lambda w: True, True), (lambda w: False, False), (lambda w: 1 / 0, False), (None, False), (lambda w: w.origin[0] > 0, e["origin"][0] > 0)):
        r = C("c", CT.CUSTOM, "P", "d", validator=fn).evaluate(d)
        ctx.check(bool(r.passed) == ok and bool(r.error_message), "custom", "a custom constraint does not say what its validator said", {"r": str(r)})
    r = C("c", rng.choice([CT.ON_CIRCLE, CT.IN_PLANE, CT.MIN_DISTANCE, CT.NO_INTERFERENCE]), "P", "d", center=(0, 0, 0), radius=5, plane_normal=(0, 0, 1), min_value=0).evaluate(d)
    ctx.check(not r.passed, "unimplemented", "a constraint type nobody evaluates passes", {"r": str(r)})


COMPAT = dict(COINCIDENT=set(KINDS), CONCENTRIC={"axis", "circle"}, PARALLEL={"axis", "plane"}, PERPENDICULAR={"axis", "plane"})
REMOVES = dict(COINCIDENT=3, CONCENTRIC=2, FLUSH=3, PARALLEL=2, PERPENDICULAR=1)


def g_assembly(ctx, rng):
    a = A("asm")
    defs = []
    for i in range(rng.randint(1, 3)):
        p = PD("def%d" % i)
        ds = {}
        for j in range(rng.randint(1, 4)):
            s = spec(rng, "d%d" % j)
            p.add_datum(D(**s))
            ds["d%d" % j] = desc(s)
        defs.append((p, ds))
    parts, mates, cons, cases, bolts = {}, [], [], set(), {}
    from yapcad.assembly.load_case import LoadCase
    log = []

    def state():
        return (list(a.parts), {k: v.tolist() for k, v in a.transforms.items()}, len(a.mates), len(a.constraints), sorted(a.load_cases), sorted(a.bolt_patterns))

    def refuse(what, f):
        ctx.ev("refused")
        b = state()
        try:
            f()
            ctx.viol("refuse", "accepted: " + what, {"log": log})
        except AE:
            pass
        ctx.check(state() == b, "refuse", "a refused operation changed the assembly", {"what": what, "log": log})

    ctx.ev("assembly")
    for i in range(rng.randint(1, 5)):
        p, ds = rng.choice(defs)
        T = rigid(rng) if rng.random() < 0.8 else None
        name = "i%d" % i if rng.random() < 0.9 or p.name in parts else None
        a.add_part(p, name=name, transform=T) if name else a.add_part(p, transform=T)
        keep = np.eye(4) if T is None else T.copy()
        if T is not None and rng.random() < 0.5:
            T[:3, 3] += 5
        parts[name or p.name] = (ds, keep)
        log.append(("part", name or p.name))
    if rng.random() < 0.3:
        # imported poses
        data, fmt = {}, rng.random() < 0.5
        for n in parts:
            if rng.random() < 0.7:
                T = rigid(rng)
                data[n] = {"transform": T.reshape(-1).tolist() if fmt else T.tolist()}
                parts[n] = (parts[n][0], T)
        data["stranger"] = {"transform": np.eye(4).tolist()}
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump({"parts": data}, f)
            f.flush()
            a.import_transforms_from_kinematic_chain(f.name)
        ctx.ev("imported")
        log.append(("import", sorted(data)))
        with tempfile.NamedTemporaryFile("w", suffix=".json") as f:
            json.dump(rng.choice([{}, {"parts": {list(parts)[0]: {}}}, {"parts": {list(parts)[0]: {"transform": [1, 2, 3]}}}, {"parts": {list(parts)[0]: {"transform": "x"}}}]), f)
            f.flush()
            refuse("malformed transforms", lambda: a.import_transforms_from_kinematic_chain(f.name))
    ctx.case(("A", repr(log), repr({k: v[0] for k, v in parts.items()})))
    anyp = lambda: rng.choice(list(parts))
    refuse("duplicate part", lambda: a.add_part(defs[0][0], name=anyp()))
    dof = {n: 6 for n in parts}
    for i in range(rng.randint(0, 5)):
        p, q = anyp(), anyp()
        d1, d2 = rng.choice(list(parts[p][0])), rng.choice(list(parts[q][0]))
        k = rng.choice(["COINCIDENT", "CONCENTRIC", "PARALLEL", "PERPENDICULAR", "FLUSH", "RIGID", "REVOLUTE", "DISTANCE"])
        m = M("m%d" % i, MT[k], p, d1, q, d2)
        ok = k not in COMPAT or (parts[p][0][d1]["kind"] in COMPAT[k] and parts[q][0][d2]["kind"] in COMPAT[k])
        if ok:
            a.add_mate(m)
            mates.append(m)
            dof[q] = max(0, dof[q] - REMOVES.get(k, 0))
        else:
            refuse("incompatible mate " + k, lambda: a.add_mate(m))
    refuse("mate on unknown part", lambda: a.add_mate(M("x", MT.RIGID, anyp(), "d0", "nobody", "d0")))
    refuse("mate on unknown part", lambda: a.add_mate(M("x", MT.RIGID, "nobody", "d0", anyp(), "d0")))
    p = anyp()
    refuse("mate on unknown datum", lambda: a.add_mate(M("x", MT.RIGID, p, "zz", p, list(parts[p][0])[0])))
    refuse("mate on unknown datum", lambda: a.add_mate(M("x", MT.RIGID, p, list(parts[p][0])[0], p, "zz")))
    ctx.ev("dof")
    ctx.check(a.get_degrees_of_freedom() == dof, "dof", "degrees of freedom do not follow the mates added", {"got": a.get_degrees_of_freedom(), "want": dof, "mates": [m.mate_type.value for m in mates]})
    ctx.check(a.mates == mates, "mates", "the mates held are not the ones added", {})
    world = {(n, d): dmoved(ds[d], T) for n, (ds, T) in parts.items() for d in ds}
    for i in range(rng.randint(0, 5)):
        n, d = rng.choice(list(world))
        c = mkcon(rng, "c%d" % i, world[(n, d)], n, d)
        c.severity = rng.choice(["error", "error", "warning", "info"])
        if rng.random() < 0.1:
            ok = rng.random() < 0.5
            c = C("c%d" % i, CT.CUSTOM, n, d, validator=lambda w, ok=ok: ok, severity=c.severity)
        a.add_constraint(c)
        cons.append(c)
    refuse("constraint on unknown part", lambda: a.add_constraint(C("x", CT.FACING, "nobody", "d0", direction="+z")))
    refuse("constraint on unknown datum", lambda: a.add_constraint(C("x", CT.FACING, anyp(), "zz", direction="+z")))
    for (n, d), e in world.items():
        g = a.get_transformed_datum(n, d)
        m = same(g, e, 1e-6)
        ctx.check(m is None, "world-datum", "a datum in world coordinates is not the part's pose applied to it: %s" % m, {"part": n, "datum": repr(a.parts[n].datums[d]), "T": parts[n][1].tolist(), "got": repr(g)})
    refuse("unknown datum", lambda: a.get_transformed_datum(anyp(), "zz"))
    refuse("unknown part", lambda: a.get_transformed_datum("nobody", "d0"))
    if rng.random() < 0.4:
        refuse("bolt pattern on unknown part", lambda: a.add_bolt_pattern(anyp(), "nobody", object()))
        b = object()
        p, q = anyp(), anyp()
        a.add_bolt_pattern(p, q, b)
        refuse("second bolt pattern", lambda: a.add_bolt_pattern(p, q, object()))
        ctx.check(a.get_bolt_pattern(p, q) is b and (p == q or a.get_bolt_pattern(q, p) is None), "bolt", "the bolt pattern of an interface is not the one registered", {})
    # validation
    for rep in range(2):
        res = a.validate()
        ctx.ev("validated")
        failed, warned, sure = set(), set(), True
        for c in cons:
            want = judge(c, world[(c.part, c.datum)])[0] if c.constraint_type != CT.CUSTOM else bool(c.validator(None))
            got = res.constraint_results.get(c.name)
            info = {"c": repr(c), "datum": repr(a.parts[c.part].datums[c.datum]), "T": parts[c.part][1].tolist(), "got": str(got)}
            if got is None:
                ctx.viol("validate", "a constraint has no result", info)
                continue
            if want is None:
                want = bool(got.passed)
            ctx.check(bool(got.passed) == want, "validate", "validation judges a constraint against the wrong place", info)
            if not want and c.severity == "error":
                failed.add(c.name)
            if not want and c.severity == "warning":
                warned.add(c.name)
                ctx.ev("warning")
        info = {"failed": res.failed_constraints, "want": sorted(failed), "warnings": res.warnings, "wantwarn": sorted(warned)}
        ctx.check(sorted(res.failed_constraints) == sorted(failed) and res.is_valid == (not failed) and len(res.constraint_results) == len(cons), "validate-lists", "is_valid or the failed list does not follow the results", info)
        ctx.check(sorted(w.split(":")[0] for w in res.warnings) == sorted(warned), "validate-lists", "the warnings are not the failed warning-severity constraints", info)
        rep_, rr = a.report(), res.report()
        ctx.check(("STATUS: VALID" in rep_) == (not failed) and ("STATUS: INVALID" in rep_) == bool(failed) and all("FAILED: " + n in rep_ for n in failed) and all("- %s: " % n in rep_ for n in warned), "report", "the report does not state the verdict", {"report": rep_, **info})
        ctx.check(("STATUS: VALID" in rr) == (not failed) and all("[%s]" % n in rr for n in failed) and all(("[OK] " + c.name in rr) == (c.name not in failed) for c in cons), "report", "the validation report does not state the verdict", {"report": rr, **info})
        try:
            a.validate_and_raise()
            ctx.ev("valid")
            ctx.check(not failed, "raise", "validate_and_raise() accepts an invalid assembly", info)
        except AE as ex:
            ctx.ev("raised")
            ctx.check(bool(failed) and all(n in str(ex) for n in failed), "raise", "validate_and_raise() raised for a valid assembly or does not name the failures", dict(info, ex=str(ex)))
        # move a part and validate again
        n = anyp()
        T = rigid(rng)
        a.transforms[n] = T
        parts[n] = (parts[n][0], T)
        world = {(n, d): dmoved(ds[d], T) for n, (ds, T) in parts.items() for d in ds}


def jd(e):
    o = {"type": e["kind"].upper(), "origin": e["origin"]}
    for k in VECS:
        if e[k]:
            o[k] = e[k]
    if e["radius"] is not None:
        o["radius"] = e["radius"]
    return o


def g_registry(ctx, rng):
    REG.clear()
    inst = REG._get_instance()
    old = list(inst._search_paths)
    tmp = tempfile.mkdtemp()
    model = {}          # source -> {name: desc}
    log = []
    try:
        inst._search_paths[:] = []
        pathed = False
        disk = {}       # file -> (datums, part_name)
        for step in range(rng.randint(4, 14)):
            op = rng.choice(["source", "datum", "part", "file", "get", "get", "get", "file-get", "file-get", "names", "clear"])
            if op == "clear" and rng.random() < 0.7:
                op = "get"
            src = rng.choice(["A", "B", "C"])
            ctx.ev("registry")
            if op == "source":
                specs = [spec(rng, "d%d" % j) for j in range(rng.randint(0, 3))]
                given = {s["name"]: D(**s) for s in specs}
                REG.register_source(src, given)
                model[src] = {s["name"]: desc(s) for s in specs}
                if rng.random() < 0.5:
                    given["later"] = D("later", DT.POINT)
            elif op == "datum":
                s = spec(rng, "d%d" % rng.randrange(3))
                tgt = rng.choice([src, src, "N%d" % rng.randrange(3)])
                if tgt not in model and tgt in REG.list_sources():
                    continue
                REG.register_datum(tgt, D(**s))
                model.setdefault(tgt, {})[s["name"]] = desc(s)
                log.append((op, tgt, s["name"]))
                continue
            elif op == "part":
                p = PD(src)
                specs = [spec(rng, "d%d" % j) for j in range(rng.randint(0, 3))]
                for s in specs:
                    p.add_datum(D(**s))
                REG.register_part(p)
                model[src] = {s["name"]: desc(s) for s in specs}
            elif op == "file":
                n = len(disk)
                specs = [spec(rng, "d%d" % j) for j in range(rng.randint(1, 3))]
                pn = "PN%d" % n
                body = {"part_name": pn, "datums": {s["name"]: jd(desc(s)) for s in specs}}
                ok = {s["name"]: desc(s) for s in specs}
                if rng.random() < 0.3:
                    body["datums"]["broken"] = rng.choice([{"type": "PLANE", "origin": [0, 0, 0]}, {"type": "nonsense"}, {"type": "CIRCLE", "normal": [0, 0, 1]}])
                dsl = rng.random() < 0.3
                name = "f%d.%s" % (n, "dsl" if dsl else "json")
                if dsl:
                    open(os.path.join(tmp, name), "w").write("module x\n")
                # looked up before it can be found
                if rng.random() < 0.5 and not pathed:
                    ctx.ev("registry:late")
                    try:
                        REG.get_datum(name, "d0")
                        ctx.viol("registry-miss", "a datum came from a file that cannot be found", {"log": log})
                    except KeyError:
                        pass
                with open(os.path.join(tmp, name.replace(".dsl", ".datums.json") if dsl else name), "w") as f:
                    json.dump(body, f)
                disk[name] = (ok, pn)
            elif op == "file-get" and disk:
                if not pathed:
                    REG.add_search_path(tmp)
                    pathed = True
                name = rng.choice(list(disk))
                ok, pn = disk[name]
                key = name if rng.random() < 0.7 else os.path.join(tmp, name)
                for dn, e in ok.items():
                    ctx.ev("registry:json")
                    m = same(REG.get_datum(key, dn), e)
                    ctx.check(m is None, "registry-json", "a datum loaded from a surrogate file differs from it: %s" % m, {"e": e})
                ctx.check(sorted(REG.list_datums(key)) == sorted(ok), "registry-json", "the datums of a surrogate file are not the well-formed ones in it", {"got": REG.list_datums(key), "want": sorted(ok)})
                model[key] = ok
                if rng.random() < 0.7:
                    ctx.ev("registry:alias")
                    dn = rng.choice(list(ok))
                    m = same(REG.get_datum(pn, dn), ok[dn])
                    ctx.check(m is None, "registry-alias", "a surrogate is not found by its part name: %s" % m, {"log": log})
                    model[pn] = ok
            elif op == "clear":
                REG.clear()
                model.clear()
                ctx.check(REG.list_sources() == [], "registry-clear", "cleared sources are still listed", {})
            log.append((op, src))
            # every registered datum is what was registered last
            for s_, ds in model.items():
                for dn, e in ds.items():
                    try:
                        m = same(REG.get_datum(s_, dn), e)
                    except KeyError as ex:
                        m = str(ex)
                    ctx.check(m is None, "registry-get", "the registry does not return the datum registered last: %s" % m, {"source": s_, "datum": dn, "log": log[-8:]})
                ctx.check(sorted(REG.list_datums(s_)) == sorted(ds) == sorted(REG.get_datums_for_source(s_)), "registry-list", "the datums listed are not those registered", {"source": s_, "log": log[-8:]})
                ctx.check(s_ in REG.list_sources(), "registry-list", "a registered source is not listed", {"source": s_, "log": log[-8:]})
            for s_, dn in (("nobody", "d0"), (src if src in model else "nobody", "absent"), ("N9", "d1")):
                ctx.ev("registry:miss")
                try:
                    REG.get_datum(s_, dn)
                    ctx.viol("registry-miss", "an unregistered datum was returned", {"source": s_, "log": log})
                except KeyError:
                    pass
            ctx.check(REG.list_datums("nobody") == [] and not {"nobody", "N9"} & set(REG.list_sources()), "registry-list", "an unknown source is listed after a failed lookup", {"sources": REG.list_sources()})
            if model:
                s_ = rng.choice(list(model))
                REG.get_datums_for_source(s_)["x"] = None
        ctx.case(("R", repr(log)))
    finally:
        REG.clear()
        inst._search_paths[:] = old
        shutil.rmtree(tmp)


def g_dsl(ctx, rng):
    from yapcad.dsl.runtime.builtins import call_builtin
    from yapcad.dsl.runtime.values import solid_val, string_val
    from yapcad.dsl.meta_apply import apply_meta_hint
    cb = lambda n, *v: call_builtin(n, [string_val(x) if isinstance(x, str) else x for x in v])
    asm = cb("assembly", "A%d" % rng.randrange(99))
    ref, parts = {}, rng.randint(1, 4)
    for i in range(parts):
        sol = ["solid", [], [], [], {}]
        ents, want = [], {}
        for j in range(rng.randint(0, 4)):
            kind = rng.choice(["axis", "plane", "point", "bolt_circle", "edge"])
            e = {"id": "d%d" % j, "kind": kind}
            r, z = round(rng.uniform(1, 50), 2), round(rng.uniform(-50, 50), 2)
            o = [0.0, 0.0, 0.0]
            if kind == "bolt_circle" or rng.random() < 0.6:
                e["R_mm"] = r
                o[0] = r
            if rng.random() < 0.6:
                e["z_mm"] = z
                o[2] = z
            if rng.random() < 0.4:
                o = [round(c, 2) for c in pt(rng)]
                e["origin_mm"] = list(o)
            v = [0.0, 0.0, 1.0]
            if rng.random() < 0.6:
                v = [float(c) for c in rdir(rng)]
                e["direction"] = list(v)
            ents.append(e)
            if kind != "edge":
                k = "circle" if kind == "bolt_circle" else kind
                want["d%d" % j] = dict(kind=k, origin=o, radius=r if k == "circle" else None, direction=v if k == "axis" else None, normal=v if k in ("plane", "circle") else None, x_axis=None, y_axis=None)
        mat = rng.choice([None, "ABS"])
        hint = {}
        if ents:
            hint["assembly.datums"] = ents
        if mat:
            hint["material"] = mat
        if hint:
            apply_meta_hint(sol, copy.deepcopy(hint))
        name = "p%d" % i
        r = cb("add_part", asm, solid_val(sol), name)
        ctx.check(r.data is asm.data, "dsl-chain", "add_part does not return the assembly", {})
        ref[name] = want
        part = asm.data.parts[name]
        ctx.check(sorted(part.datums) == sorted(want), "dsl-lift", "the datums lifted are not those declared in @meta", {"hint": hint, "got": sorted(part.datums)})
        for dn, e in want.items():
            if dn in part.datums:
                ctx.ev("lifted")
                m = same(part.datums[dn], e)
                ctx.check(m is None, "dsl-lift", "a lifted datum differs from its declaration: %s" % m, {"e": e, "got": repr(part.datums[dn])})
        ctx.check(part.material == (mat or PD("x").material), "dsl-lift", "the part's material is not the one declared", {"got": part.material})
    ctx.ev("dsl")
    ctx.case(("L", repr(ref)))
    n = 0
    for _ in range(rng.randint(0, 6)):
        p, q = rng.choice(list(ref)), rng.choice(list(ref))
        d1, d2 = rng.choice(list(ref[p]) or ["zz"]), rng.choice(list(ref[q]) + ["zz"])
        k = rng.choice(["coincident", "concentric", "parallel", "revolute", "rigid", "flush", "bogus"])
        K = k.upper()
        ok = k != "bogus" and d1 in ref[p] and d2 in ref[q] and (K not in COMPAT or (ref[p][d1]["kind"] in COMPAT[K] and ref[q][d2]["kind"] in COMPAT[K]))
        try:
            r = cb("add_mate", asm, k, p, d1, q, d2)
            ctx.check(ok and r.data is asm.data, "dsl-mate", "an invalid mate is accepted", {"mate": (k, p, d1, q, d2)})
            n += 1
            m = asm.data.mates[-1]
            ctx.check((m.mate_type.value, m.part_a, m.datum_a, m.part_b, m.datum_b) == (k, p, d1, q, d2), "dsl-mate", "the mate added is not the one asked for", {"m": repr(m)})
        except (AE, ValueError) as ex:
            ctx.check(not ok, "dsl-mate", "a valid mate is refused: %s" % ex, {"mate": (k, p, d1, q, d2)})
    ctx.check(len(asm.data.mates) == n, "dsl-mate", "the mates held are not those accepted", {})
    ctx.check(cb("validate_assembly", asm).data is True, "dsl-validate", "an assembly without constraints is invalid", {})
    name = rng.choice(list(ref))
    if ref[name]:
        ok = rng.random() < 0.5
        asm.data.add_constraint(C("cc", CT.CUSTOM, name, list(ref[name])[0], validator=lambda w: ok, severity=rng.choice(["error", "error"])))
        ctx.check(cb("validate_assembly", asm).data is ok, "dsl-validate", "validate_assembly differs from Assembly.validate()", {})
        ctx.check(("STATUS: VALID" in cb("assembly_report", asm).data) == ok, "dsl-validate", "assembly_report differs from the verdict", {})
    rep = cb("assembly_report", asm).data
    ctx.check(all("- %s (" % p in rep for p in ref) and "Mates: %d" % n in rep, "dsl-report", "the report does not list the parts and mates", {"rep": rep})


GROUPS = {"datum": (g_datum, 1000, 20000), "constraint": (g_constraint, 1300, 30000), "assembly": (g_assembly, 400, 10000), "registry": (g_registry, 350, 8000), "dsl": (g_dsl, 250, 5000)}

if __name__ == "__main__":
    vf.main(globals())
