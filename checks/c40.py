"""C40: declared assembly intent: reference geometry, requirements, connections, surrogates."""
import copy, math, os, sys
import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

PROP = "C40"
LEVEL = "exploration"
META = dict(
    title="Assembly intent: requirements become the constraints that decide them",
    statement="A reference cylinder (any axis), sphere or plane gives points that lie on it at the parameters asked for and unit normals perpendicular to it, reversed for inner walls. Each functional requirement turns into exactly the constraint specifications it implies (contact: the datum at the target cylinder's radius or in the target plane; rolling: the axis perpendicular to the travel, and tangent in an upright tube; orientation: tangent, radial, axial, facing a direction or along a vector; parallel axes; reach), and an AssemblyIntent collects them, in order and once each, followed by one mate specification per connection with its parts, datums, joint type, axis and limits (degrees to radians for hinges, mm for slides). Evaluated by the constraint checker, the specifications accept the placements that meet the requirement and reject those that do not. solve() succeeds exactly when every contact target exists, naming each missing one, and derives each contact radius; validate() names exactly the unknown targets and the parts without a connection; to_assembly() holds the declared parts; report() lists everything declared; none of these change the intent. Mate surrogates have right-handed orthonormal frames, holes evenly spaced on their bolt circle in its plane, features found by name, and sun gears at the dimensions asked for.",
    over=["inputs", "histories"], q="for all reference geometry, requirements, connections, placements and intents built from them",
    why="The repository has no tests of these modules at all; nothing compares a requirement with placements that do and do not meet it.",
    files=["src/yapcad/assembly/intent.py", "src/yapcad/assembly/mate_surrogates.py"],
    mech=[("points and normals of reference geometry", "src/yapcad/assembly/intent.py"), ("requirements to constraint specifications", "src/yapcad/assembly/intent.py"), ("connections to mate specifications, solve and validate", "src/yapcad/assembly/intent.py"), ("bolt circles, frames and sun gears of surrogates", "src/yapcad/assembly/mate_surrogates.py")],
    technique="reference-model monitors on generated intents; the generated constraints are evaluated on placements built to meet or miss the requirement",
    note="Exploration. Clearance.validate (a documented placeholder that measures nothing), tangency about cylinders that are not upright, and orientation without a reference cylinder are not claimed.",
)
RULE = "random reference geometry, requirements, connections and intents; distinct by their parameters"
REQUIRE = {"ref_points": 1500, "specs": 500, "evaluations": 400, "rejections": 150, "mates": 300, "intents": 100, "holes": 500, "surrogates": 50}
WALL_QUICK = 300


def init():
    global I, S, Constraint, ConstraintType, Datum, DatumType, PartDefinition
    from yapcad.assembly import intent as I, mate_surrogates as S
    from yapcad.assembly.constraint import Constraint, ConstraintType
    from yapcad.assembly.datum import Datum, DatumType, PartDefinition


def unit(v):
    v = np.array(v, float)
    return v / np.linalg.norm(v)


def rdir(rng):
    if rng.random() < .5:
        v = [0.0] * 3
        v[rng.randrange(3)] = rng.choice([1.0, -1.0, 2.5])
        return tuple(v)
    while True:
        v = tuple(rng.gauss(0, 1) for _ in range(3))
        if np.linalg.norm(v) > .3:
            return v


def rpt(rng, s=80):
    return tuple(round(rng.uniform(-s, s), 3) for _ in range(3))


def rgeom(rng, name, kind=None, upright=False):
    kind = kind or rng.choice(["cylinder", "cylinder", "plane", "sphere"])
    if kind == "cylinder":
        ax = rng.choice([(0, 0, 1), (0, 0, 1), None]) if upright else rng.choice([(0, 0, 1), None, rdir(rng), rdir(rng), rdir(rng)])
        return I.ReferenceGeometry(name, kind, center=rpt(rng), axis=ax, radius=round(rng.uniform(1, 300), 3), inner=rng.random() < .5)
    if kind == "plane":
        return I.ReferenceGeometry(name, kind, center=rpt(rng), normal=rdir(rng))
    if kind == "sphere":
        return I.ReferenceGeometry(name, kind, center=rpt(rng), radius=round(rng.uniform(1, 300), 3), inner=rng.random() < .5)
    return I.ReferenceGeometry(name, kind, center=rpt(rng))


# ---------------------------------------------------------------- reference geometry

def reference(ctx, rng):
    G = rgeom(rng, "ref")
    key = repr(G)
    ctx.case(key)
    before = repr(G)
    c = np.array(G.center, float)
    v = lambda mech, msg: ctx.viol("ref:" + mech, f"{key}: {msg}", key)
    th, z = rng.uniform(-7, 7), rng.uniform(-1.5, 1.5)
    for _ in range(6):
        p = np.array(G.get_surface_point(th, z), float)
        n = np.array(G.get_normal_at(tuple(p)), float)
        ctx.ev("ref_points")
        if p.shape != (3,) or n.shape != (3,) or abs(np.linalg.norm(n) - 1) > 1e-9:
            v("normal", f"normal {n} at {p}")
            return
        sg = -1 if G.inner else 1
        tol = 1e-9 * (1 + np.abs(p).max())
        if G.geometry_type == "cylinder":
            w = unit(G.axis or (0, 0, 1))
            d = p - c
            along = d @ w
            rad = d - along * w
            if abs(along - z) > tol or abs(np.linalg.norm(rad) - G.radius) > tol:
                v("on", f"the point at theta {th}, z {z} is {np.linalg.norm(rad)} from the axis and {along} along it")
                return
            if abs(n @ w) > 1e-9 or np.abs(n - sg * rad / np.linalg.norm(rad)).max() > 1e-7:
                v("normal", f"normal {n} at {p} is not the {'inward' if G.inner else 'outward'} radial direction {sg * rad / np.linalg.norm(rad)}")
                return
            q = np.array(G.get_surface_point(th + .7, z)) - c - along * w
            s = np.cross(rad, q) @ w / G.radius ** 2
            if abs(s - math.sin(.7)) > 1e-9 or abs(rad @ q / G.radius ** 2 - math.cos(.7)) > 1e-9:
                v("theta", f"a step of 0.7 rad in theta turns the point by {math.atan2(s, rad @ q / G.radius ** 2)}")
                return
            if w[2] == 1 and np.abs(rad - G.radius * np.array([math.cos(th), math.sin(th), 0])).max() > tol * 10:
                v("theta", f"theta {th} about Z gives {rad}")
        elif G.geometry_type == "sphere":
            e = c + G.radius * np.array([math.cos(th) * math.cos(z), math.sin(th) * math.cos(z), math.sin(z)])
            if np.abs(p - e).max() > tol:
                v("on", f"the point at azimuth {th}, elevation {z} is {p}, expected {e}")
                return
            if np.abs(n - sg * unit(p - c)).max() > 1e-7:
                v("normal", f"normal {n} at {p}")
        else:
            if np.abs(p - c).max() > tol:
                v("on", f"the plane's point is {p}")
            if np.abs(n - unit(G.normal)).max() > 1e-9:
                v("normal", f"plane normal {n}")
        # off the surface too: the normal of the nearest point
        if G.geometry_type != "plane":
            k = rng.uniform(.1, 3)
            if G.geometry_type == "cylinder":
                q = c + rng.uniform(-99, 99) * w + k * rad
            else:
                q = c + k * (p - c)
            m = np.array(G.get_normal_at(tuple(q)), float)
            if np.abs(m - n).max() > 1e-6:
                v("normal", f"normal {m} at {q}, along the same radius {n}")
        th, z = rng.uniform(-7, 7), rng.uniform(-1.5, 1.5)
    ctx.check(repr(G) == before, "ref:pure", "querying reference geometry changed it", key)
    if rng.random() < .3:
        for B in (I.ReferenceGeometry("b", "cylinder", radius=3.0), I.ReferenceGeometry("b", "cylinder", center=(0, 0, 0)), I.ReferenceGeometry("b", "sphere", center=(0, 0, 0))):
            try:
                B.get_surface_point(0, 0)
                v("refuse", f"{B} gave a point")
            except ValueError:
                pass


# ---------------------------------------------------------------- requirements

PARTS = ["motor", "arm", "chassis", "wrist"]
DATUMS = ["axis", "face", "bore", "tip"]


def norm(spec):
    return {k: (tuple(float(x) for x in v) if isinstance(v, (tuple, list)) and all(isinstance(x, (int, float)) for x in v) else v) for k, v in spec.items() if k not in ("name", "description", "message")}


def rreq(rng, geoms, i):
    """a requirement and the specifications it implies; geoms: key -> ReferenceGeometry"""
    part, dat = rng.choice(PARTS), rng.choice(DATUMS)
    kind = rng.choice(["contact", "contact", "roll", "orient", "orient", "parallel", "reach"])
    name = f"req{i}"
    base = dict(part=part, datum=dat)
    cyl = next((g for g in geoms.values() if g.geometry_type == "cylinder"), None)
    if kind == "contact":
        byname = rng.random() < .4
        t = rng.choice(list(geoms) + ["nowhere"])
        G = geoms.get(t)
        if G and byname:
            t = G.name
        r = I.ContactRequirement(name=name, part=part, surface=dat, target=t, contact_type=rng.choice(["static", "rolling", "sliding"]))
        if G is None:
            return r, [dict(type="error")]
        if G.geometry_type == "cylinder":
            return r, [dict(base, constraint_type="AT_RADIUS", center=G.center, radius=G.radius)]
        if G.geometry_type == "plane":
            return r, [dict(base, constraint_type="IN_PLANE", plane_origin=G.center, plane_normal=G.normal)]
        return r, []
    if kind == "roll":
        d = rng.choice(["along_tube_axis", "+z", "-z", rdir(rng), (0, 0, 1), [1.0, 2.0, 0.0]])
        if d == "along_tube_axis":
            v = tuple(unit(cyl.axis or (0, 0, 1))) if cyl else (0.0, 0.0, 1.0)
        else:
            v = {"+z": (0, 0, 1), "-z": (0, 0, -1)}.get(d, d) if isinstance(d, str) else tuple(d)
        out = []
        if cyl and tuple(v) in ((0, 0, 1), (0, 0, -1)):
            out.append(dict(base, constraint_type="TANGENT_TO_CIRCLE", center=cyl.center, radius=cyl.radius))
        return I.RollRequirement(name=name, part=part, roll_direction=d, axis_datum=dat), out + [dict(base, constraint_type="PERPENDICULAR_TO", axis=v)]
    if kind == "orient":
        ref = rng.choice(list(geoms) + ["global"])
        G = geoms.get(ref)
        o = rng.choice(["tangent", "radial", "axial", "+x", "-x", "+y", "-y", "+z", "-z", rdir(rng)])
        if o == "tangent" and not (G and G.geometry_type == "cylinder"):
            o = "axial"
        pt = rng.choice(["toward", "away"])
        r = I.AxisOrientationRequirement(name=name, part=part, axis_datum=dat, orientation=o, reference=ref, pointing=pt)
        if o == "tangent":
            s = dict(base, constraint_type="TANGENT_TO_CIRCLE", center=G.center, radius=G.radius)
        elif o == "radial":
            s = dict(base, constraint_type="RADIAL_FROM_CENTER", center=G.center if G else (0, 0, 0), direction="outward" if pt == "away" else "inward")
        elif o == "axial":
            s = dict(base, constraint_type="PARALLEL_TO", axis=(G.axis if G and G.axis else (0, 0, 1)))
        elif isinstance(o, str):
            s = dict(base, constraint_type="FACING", direction=o)
        else:
            s = dict(base, constraint_type="PARALLEL_TO", axis=o)
        return r, [s]
    if kind == "parallel":
        pb, db = rng.choice(PARTS), rng.choice(DATUMS)
        dotted = rng.random() < .8
        return I.ParallelAxesRequirement(name=name, part=part, axis_a=f"{part}.{dat}" if dotted else dat, axis_b=f"{pb}.{db}"), [dict(base, constraint_type="PARALLEL_TO", reference_part=pb, reference_datum=db)]
    lo = rng.uniform(1, 50)
    hi = lo + rng.uniform(1, 200)
    return I.ReachRequirement(name=name, part=part, end_effector=f"{part}.tip", base="chassis.face", min_reach=lo, max_reach=hi), [dict(constraint_type="CUSTOM", min_reach=lo, max_reach=hi)]


def specs_equal(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y) or any(abs(p - q) > 1e-12 * (1 + abs(p)) for p, q in zip(x, y)):
                return False
        elif isinstance(x, float) or isinstance(y, float):
            if x is None or y is None or abs(x - y) > 1e-12 * (1 + abs(x)):
                return False
        elif x != y:
            return False
    return True


def rgeoms(rng, upright=False):
    out = {}
    for i in range(rng.randint(0, 3)):
        G = rgeom(rng, f"geom{i}", upright=upright)
        out[G.name if rng.random() < .6 else f"key{i}"] = G
    return out


def placement(ctx, rng):
    """specifications evaluated on datums that meet the requirement, and on ones that do not"""
    geoms = rgeoms(rng, upright=True)
    r, want = rreq(rng, geoms, 0)
    key = [repr(r), repr(geoms)]
    ctx.case(key)
    for s in r.get_implied_constraints(geoms):
        t = s.get("constraint_type")
        if t not in ("AT_RADIUS", "TANGENT_TO_CIRCLE", "RADIAL_FROM_CENTER", "FACING", "PARALLEL_TO", "PERPENDICULAR_TO") or "reference_part" in s:
            continue
        try:
            C = Constraint(constraint_type=ConstraintType[t], **{k: v for k, v in s.items() if k in ("name", "part", "datum", "center", "radius", "direction", "axis", "description")})
        except (TypeError, KeyError) as e:
            ctx.viol("spec:usable", f"{s} makes no constraint: {e}", key)
            continue
        c = np.array(s.get("center") or (0, 0, 0), float)
        a = rng.uniform(0, 2 * math.pi)
        rad = np.array([math.cos(a), math.sin(a), 0])
        tan = np.array([-math.sin(a), math.cos(a), 0])
        o = c + rad * rng.uniform(5, 90) + np.array([0, 0, rng.uniform(-50, 50)])
        good = rng.random() < .55
        off = math.radians(rng.uniform(2, 60))
        if t == "AT_RADIUS":
            R = s["radius"] + (0 if good else rng.choice([-1, 1]) * rng.uniform(.2, 9))
            o, d = c + rad * abs(R) + np.array([0, 0, rng.uniform(-50, 50)]), rad
            if not good and abs(abs(R) - s["radius"]) < .2:
                continue
        elif t == "TANGENT_TO_CIRCLE":
            d = tan if good else math.cos(off) * tan + math.sin(off) * rad
        elif t == "RADIAL_FROM_CENTER":
            sg = 1 if s["direction"] == "outward" else -1
            d = sg * rad if good else rng.choice([-sg * rad, sg * (math.cos(off) * rad + math.sin(off) * tan)])
        else:
            w = unit({"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}[s["direction"][1]]) * (1 if s["direction"][0] == "+" else -1) if t == "FACING" else unit(s["axis"])
            e = unit(np.cross(w, unit([.3, .5, .8]) if abs(w @ unit([.3, .5, .8])) < .9 else (1, 0, 0)))
            if t == "PERPENDICULAR_TO":
                d = e if good else math.cos(off) * e + math.sin(off) * w
            else:
                d = w if good else math.cos(off) * w + math.sin(off) * e
                if t == "FACING" and not good and rng.random() < .3:
                    d = -w
        k = rng.uniform(.5, 2)
        vec = [*(d * k if t != "FACING" else d), 0.0]
        D = Datum(name=s["datum"], datum_type=DatumType.PLANE if t == "FACING" or (t != "AT_RADIUS" and rng.random() < .4) else DatumType.AXIS, origin=[*o, 1.0], **({"normal": vec} if t == "FACING" else {"direction": vec}), **({"normal": None} if 0 else {})) if t == "FACING" else Datum(name=s["datum"], datum_type=DatumType.AXIS, origin=[*o, 1.0], direction=vec)
        res = C.evaluate(D)
        ctx.ev("evaluations")
        if not good:
            ctx.ev("rejections")
        ctx.check(bool(res.passed) == good, "spec:decides", lambda: f"{type(r).__name__} gives {s}, which {'rejects' if good else 'accepts'} a datum at {o} along {d} that {'meets' if good else 'misses'} it ({res.error_message})", key)


# ---------------------------------------------------------------- whole intents

MT = {"rigid": "COINCIDENT", "revolute": "REVOLUTE", "prismatic": "PRISMATIC", "cylindrical": "CYLINDRICAL", "spherical": "SPHERICAL"}


def rconn(rng):
    jt = rng.choice(list(MT))
    pa, pb = rng.sample(PARTS + ["link1", "link2"], 2)
    da, db = rng.choice(DATUMS + [None]), rng.choice(DATUMS + [None])
    ax = rng.choice(["tangent", (0, 0, 1), rdir(rng), None])
    lim = rng.choice([None, (-15, 15), (round(rng.uniform(-180, 0), 2), round(rng.uniform(0, 180), 2)), (0, 90), (0, 0)])
    c = I.Connection(parent=pa + (f".{da}" if da else ""), child=pb + (f".{db}" if db else ""), joint_type=jt, axis=ax, limits=lim)
    s = dict(part_a=pa, datum_a=da or "origin", part_b=pb, datum_b=db or "origin", mate_type=MT[jt], name=f"{pa}_to_{pb}")
    if jt in ("revolute", "prismatic"):
        s["axis"] = ax
        if lim is not None:
            f = math.radians if jt == "revolute" else float
            s["limits"] = {"min_value": f(lim[0]), "max_value": f(lim[1])}
    return c, s, pa, pb


def intent(ctx, rng):
    geoms = rgeoms(rng)
    reqs = [rreq(rng, geoms, i) for i in range(rng.randint(0, 6))]
    conns = [rconn(rng) for _ in range(rng.randint(0, 5))]
    clears = [I.Clearance(*rng.sample(PARTS, 2), min_distance=round(rng.uniform(.1, 9), 2)) for _ in range(rng.randint(0, 3))]
    parts = {p: PartDefinition(name=p) for p in rng.sample(PARTS, rng.randint(0, 3))}
    dp = [rng.choice(["arm.length", "total_reach", "motor.contact_radius", "q"]) for _ in range(rng.randint(0, 4))]
    key = [[repr(r[0]) for r in reqs], [repr(c[0]) for c in conns], repr(geoms)]
    ctx.case(key)
    ctx.ev("intents")
    v = lambda mech, msg: ctx.viol("intent:" + mech, f"{key}: {msg}", key)
    if rng.random() < .5:
        A = I.AssemblyIntent(name="a", functional_requirements=[r[0] for r in reqs], connections=[c[0] for c in conns], clearances=list(clears), reference_geometry=dict(geoms), part_definitions=dict(parts), derived_parameters=list(dp))
    else:
        A = I.AssemblyIntent(name="a", part_definitions=dict(parts), derived_parameters=list(dp))
        for G in geoms.values():
            A.add_reference_geometry(G)
        if set(A.reference_geometry) != {G.name for G in geoms.values()}:
            v("add", f"reference geometry {sorted(A.reference_geometry)}")
        A.reference_geometry = dict(geoms)
        ok = True
        for r in reqs:
            ok &= A.add_requirement(r[0]) is A
        for c in conns:
            ok &= A.add_connection(c[0]) is A
        for c in clears:
            ok &= A.add_clearance(c) is A
        if not ok:
            v("add", "adding does not return the intent")
        E = I.AssemblyIntent(name="other")
        if E.functional_requirements or E.connections or E.clearances or E.reference_geometry or E.part_definitions:
            v("shared", "a new intent starts with the entries of another")
    before = repr(A)
    for _ in range(rng.randint(1, 2)):
        got = A.collect_constraints()
        want = [s for _, w in reqs for s in w] + [c[1] for c in conns]
        ctx.ev("specs", len(want))
        ctx.ev("mates", len(conns))
        if len(got) != len(want):
            v("collect", f"{len(got)} specifications, expected {len(want)}: {got}")
            return
        for x, y in zip(got, want):
            y = dict(y)
            if "name" in y and y["name"] != x.get("name"):
                v("mate", f"specification {x}, expected name {y['name']}")
            if not isinstance(x.get("name"), str):
                v("name", f"{x} has no name")
            lx, ly = x.get("limits"), y.get("limits")
            if (lx is None) != (ly is None) or (lx and any(abs(lx[q] - ly[q]) > 1e-9 for q in ("min_value", "max_value"))):
                v("limits", f"limits {lx} in {x}, expected {ly}")
            if not specs_equal(norm({k: q for k, q in x.items() if k != "limits"}), norm({k: q for k, q in y.items() if k != "limits"})):
                v("spec", f"specification {x}, expected {y}")
                return
    # solve
    res = A.solve()
    missing = [r.target for r, w in reqs if w and w[0].get("type") == "error"]
    if bool(res.success) != (not missing):
        v("solve", f"success {res.success} with missing targets {missing}")
    if len(res.errors) != len(missing) or not all(any(repr(t) in e for e in res.errors) for t in missing):
        v("errors", f"errors {res.errors} for missing targets {missing}")
    find = lambda t: next((G for k, G in geoms.items() if k == t or G.name == t), None)
    der = {}
    for r, _ in reqs:
        if isinstance(r, I.ContactRequirement):
            G = find(r.target)
            if G and G.geometry_type == "cylinder":
                der[f"{r.part}.contact_radius"] = G.radius
    if res.derived != der:
        v("derived", f"derived {res.derived}, expected {der}")
    if len(res.constraints_generated) != len(want):
        v("generated", f"{len(res.constraints_generated)} constraints generated, {len(want)} implied")
    rep = res.report()
    if ("SUCCESS" in rep) == bool(missing) or ("FAILED" in rep) != bool(missing) or f"Constraints generated: {len(want)}" not in rep or not all(f"{k}: {x:.4f}" in rep for k, x in der.items()) or not all(e in rep for e in res.errors):
        v("solve-report", rep)
    # derived parameters
    wp = set(dp)
    for r, _ in reqs:
        if isinstance(r, I.ContactRequirement):
            wp |= {f"{r.part}.contact_radius", f"{r.part}.contact_position"}
        if isinstance(r, I.ReachRequirement):
            wp |= {f"{r.part}.link_length", "total_reach"}
    g = A.collect_derived_parameters()
    if sorted(g) != sorted(wp):
        v("parameters", f"derived parameters {sorted(g)}, expected {sorted(wp)}")
    # validate
    iss = A.validate()
    con = {p for c in conns for p in c[2:]}
    orphan = {r.part for r, _ in reqs} - con
    n1 = [m for m in iss if "unknown geometry" in m]
    n2 = [m for m in iss if "no connections" in m]
    if len(n1) + len(n2) != len(iss) or len(n1) != len(missing) or len(n2) != len(orphan) or not all(any(repr(t) in m for m in n1) for t in missing) or not all(any(repr(p) in m for m in n2) for p in orphan):
        v("validate", f"issues {iss}; missing targets {missing}, parts without connection {orphan}")
    rep = A.report()
    L = rep.splitlines()
    lines = [f"  - {k}: {G.geometry_type}" for k, G in geoms.items()] + [f"  - {r.name}: {type(r).__name__} on '{r.part}'" for r, _ in reqs] + [f"  - {c[0].parent} -> {c[0].child} ({c[0].joint_type})" for c in conns] + [f"  - {c.part_a} <-> {c.part_b}: min {c.min_distance}mm" for c in clears]
    miss = [x for x in lines if L.count(x) < lines.count(x)]
    if miss:
        v("report", f"the report does not list {miss}")
    asm = A.to_assembly()
    names = set(asm.parts) if hasattr(asm, "parts") else None
    if asm.name != "a" or names != set(parts):
        v("assembly", f"assembly {asm.name!r} holds {names}, declared {sorted(parts)}")
    if repr(A) != before:
        v("pure", "solving, validating or reporting changed the intent")
    if rng.random() < .1:
        for B in (I.create_wheel_assembly_intent(), I.create_scara_arm_intent()):
            names = {c.get_child_part() for c in B.connections} | {c.get_parent_part() for c in B.connections}
            ctx.check(B.solve().success and not B.validate() and {r.part for r in B.functional_requirements} <= names, "intent:example", f"the example {B.name} does not validate: {B.validate()}", key)
            for s in B.collect_constraints():
                if s.get("constraint_type") == "TANGENT_TO_CIRCLE":
                    ctx.check(s.get("radius") is not None, "intent:example", f"{s} of the example {B.name} cannot be evaluated", key)


# ---------------------------------------------------------------- surrogates

def surrogate(ctx, rng):
    d, n, r, p, a = rdir(rng), rng.randint(1, 12), rng.uniform(1, 60), rpt(rng), rng.choice([0.0, 45.0, 30.0, rng.uniform(-180, 180)])
    key = [list(d), n, r, list(p), a]
    ctx.case(key)
    ctx.ev("surrogates")
    F = S.Feature("bolts", S.FeatureType.CIRCLE, point=p, direction=d, radius=r, count=n, angle_offset_deg=a)
    holes(ctx, F, key)
    for t in S.FeatureType:
        if t != S.FeatureType.CIRCLE:
            ctx.check(S.Feature("x", t, radius=r, count=n).get_hole_positions() == [], "holes:kind", f"a {t} has holes", key)
    ctx.check(S.Feature("x", S.FeatureType.CIRCLE, radius=r).get_hole_positions() == [] and S.Feature("x", S.FeatureType.CIRCLE, count=n).get_hole_positions() == [], "holes:kind", "a circle without radius or count has holes", key)
    z, m, fw, hh, bc, sv = rng.randint(9, 40), rng.choice([.5, .75, 1.0, 2.0]), rng.uniform(2, 20), rng.uniform(2, 12), rng.uniform(6, 30), rng.choice(["XH540", "XH430", "XL330"])
    G = S.create_sun_gear_surrogate("AX", z, m, fw, hh, bc, sv)
    f = G.get_feature
    chk = lambda c, msg: ctx.check(c, "sun", lambda: f"sun gear {z}x{m}, face {fw}, hub {hh}, bolt circle {bc}: {msg}", key)
    chk(G.part_name == "AX_SUN_GEAR", G.part_name)
    chk(f("gear_top").point == (0, 0, fw) and f("gear_top").direction == (0, 0, 1), f("gear_top"))
    chk(f("hub_face").point == (0, 0, -hh) and f("hub_face").direction == (0, 0, -1), f("hub_face"))
    b = f("hub_bolt_circle")
    chk(abs(b.radius - bc / 2) < 1e-12 and b.count == 4 and b.angle_offset_deg == 45 and b.point == (0, 0, -hh), b)
    holes(ctx, b, key)
    cb = f("center_counterbore")
    chk((cb.radius, cb.height) == ((3.0, 2.5) if sv == "XL330" else (4.0, 3.0)) and cb.direction == (0, 0, 1), cb)
    ax = f("gear_axis")
    chk(ax.point == (0, 0, 0) and ax.direction == (0, 0, 1) and ax.feature_type == S.FeatureType.AXIS, ax)
    chk(f"{z * m:.2f}mm" in G.notes and f"{(z - 2.5) * m:.2f}mm" in G.notes, G.notes)
    frame(ctx, G, key)
    G.add_feature(F)
    chk(G.get_feature("bolts") is F and G.get_feature("hub_face").name == "hub_face", "added feature not found")
    try:
        G.get_feature("none")
        chk(False, "an unknown feature was found")
    except KeyError:
        pass
    chk("bolts" not in S.create_sun_gear_surrogate("AX", z, m, fw, hh, bc, sv).features, "features are shared between surrogates")
    if rng.random() < .2:
        for k, s in S.get_all_surrogates().items():
            ctx.check(s.part_name == k, "all:name", f"{k} is {s.part_name}", key)
            frame(ctx, s, key)
            for nm, ft in s.features.items():
                ctx.check(ft.name == nm and abs(np.linalg.norm(ft.direction) - 1) < 1e-9, "all:feature", f"{k}.{nm}: {ft}", key)
                if ft.feature_type == S.FeatureType.CIRCLE:
                    holes(ctx, ft, key)
                    ctx.check(abs(ft.radius) > 0, "all:circle", f"{k}.{nm}", key)
            T = s.get_transform_to_standard_frame()
            ctx.check((T["origin"], T["x_axis"], T["y_axis"], T["z_axis"]) == (s.origin, s.x_axis, s.y_axis, s.z_axis), "all:frame", f"{k}: {T}", key)
        ctx.check(S.validate_surrogates() == [], "all:valid", f"{S.validate_surrogates()}", key)


def frame(ctx, s, key):
    A = np.array([s.x_axis, s.y_axis, s.z_axis], float)
    ctx.check(np.abs(A @ A.T - np.eye(3)).max() < 1e-9 and abs(np.linalg.det(A) - 1) < 1e-9, "frame", lambda: f"the frame of {s.part_name} is not right-handed and orthonormal: {A.tolist()}", key)


def holes(ctx, F, key):
    H = np.array(F.get_hole_positions(), float).reshape(-1, 3)
    ctx.ev("holes", len(H))
    n, r = F.count, F.radius
    c, w = np.array(F.point, float), unit(F.direction)
    tol = 1e-9 * (1 + np.abs(c).max() + r)
    if len(H) != n or np.abs((H - c) @ w).max() > tol or np.abs(np.linalg.norm(H - c, axis=1) - r).max() > tol:
        ctx.viol("holes:circle", f"holes {H.tolist()} are not {n} points of the circle of radius {r} about {F.point}, normal {F.direction}", key)
        return
    x = np.array([1.0, 0, 0])
    x = x - (x @ w) * w
    if np.linalg.norm(x) > 1e-3:
        x = unit(x)
        y = np.cross(w, x)
        ang = np.degrees(np.arctan2((H - c) @ y, (H - c) @ x))
        e = lambda s: np.abs((ang - s * (F.angle_offset_deg + np.arange(n) * 360.0 / n) + 180) % 360 - 180).max()
        ok = e(1) < 1e-6 if abs(w[2] - 1) < 1e-9 else e(-1) < 1e-6 if abs(w[2] + 1) < 1e-9 else min(e(1), e(-1)) < 1e-6
        if not ok:
            ctx.viol("holes:angles", f"holes at angles {ang.tolist()} from +X, expected {n} from {F.angle_offset_deg}, normal {F.direction}", key)
    elif n > 1:
        step = np.linalg.norm(H - np.roll(H, 1, 0), axis=1)
        if np.abs(step - 2 * r * math.sin(math.pi / n)).max() > tol:
            ctx.viol("holes:angles", f"holes are not evenly spaced: {H.tolist()}", key)


GROUPS = {"reference": (reference, 400, 6000), "placement": (placement, 900, 15000), "intent": (intent, 300, 5000), "surrogate": (surrogate, 200, 3000)}

if __name__ == "__main__":
    vf.main(globals())
