import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json, logging, math, random
import vf

PROP = "C25"
LEVEL = "exploration"
META = dict(
    title="Assembly mates: a solved mate is satisfied, and coincidence is judged exactly",
    statement="A mate that is solved yields a rigid placement (orthonormal, determinant +1) that satisfies it: COINCIDENT/FLUSH/RIGID bring the child datum's origin onto the parent's (plus the offset along its normal) with opposed directions, ALIGNED (face mates) with equal ones, CONCENTRIC and REVOLUTE with colinear equal axes, PARALLEL aligns and PERPENDICULAR crosses the directions, DISTANCE puts the child datum at the offset along the parent normal, ANGLE turns by the angle in radians. Given the parent's world pose the result is that pose applied to it, for every mate, however many mates (also of equal names), poses and queries came before, and whatever the caller does with returned matrices; chains place every part on its own parent. Unknown datums and unsupported types are failures, never wrong placements. evaluate_coincident() and bolt-circle alignment report the true distance and angle and satisfied exactly within tolerance. Mate limits, coupling, degrees of freedom, datum compatibility and dictionary round trips follow their documented tables; validate_transform() accepts exactly the rigid matrices.",
    over=["inputs", "histories"], q="for all datums, mates, parent poses and sequences of solver calls",
    why="A mate solved for a stale pose or a slightly wrong direction silently misplaces hardware; tests never solve a mate twice or at small angles.",
    files=["src/yapcad/assembly/solver.py", "src/yapcad/assembly/face_mate.py", "src/yapcad/assembly/mate.py"],
    mech=[("MateConstraintSolver", "src/yapcad/assembly/solver.py"), ("FaceToFaceMate", "src/yapcad/assembly/face_mate.py"), ("Mate", "src/yapcad/assembly/mate.py"), ("evaluate_coincident", "src/yapcad/assembly/mate.py")],
    technique="random mate histories through shared solvers; each placement is checked against the geometric relation it claims, poses against explicit composition, coincidence reports against an independent evaluator",
    note="Exploration. mate_axis remapping is only checked to be a consistent rigid re-orientation (its documented directions are ambiguous); bolt-circle offsets are checked up to half a hole spacing; PRISMATIC and other joints without a solver are expected to fail.",
)
RULE = "random datums (axis-aligned, nearly aligned, opposite, general), mates and call histories; distinct by the recipe"
REQUIRE = {"solve": 4000, "again": 900, "parented": 1500, "mutated": 300, "same-name": 300, "near-aligned": 250, "anti": 200, "fail": 250, "axis-remap": 200, "chain": 300, "branch": 100,
           "face": 500, "face-again": 400, "coincident": 1500, "coincident:pass": 200, "coincident:fail": 300, "bolt": 200, "limits": 500, "coupled": 300, "roundtrip": 300, "compat": 400, "rigid": 200, "nonrigid": 200}
WALL_QUICK = 200


def init():
    global np, M, MT, D, DT, S, F, REG, MM
    import numpy as np
    from yapcad.assembly import mate as MM, solver as S, face_mate as F
    from yapcad.assembly.mate import Mate as M, MateType as MT
    from yapcad.assembly.datum import Datum as D, DatumType as DT
    from yapcad.assembly.datum_registry import DatumRegistry as REG
    logging.disable(logging.CRITICAL)


def unit(v):
    n = math.sqrt(sum(c * c for c in v))
    return [c / n for c in v]


def rdir(rng):
    k = rng.random()
    if k < 0.4:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1, -1])
        return v
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if sum(c * c for c in v) > 0.05:
            break
    return v if k < 0.6 else unit(v)


def nudge(rng, v, deg):
    """v turned by deg about a random perpendicular axis"""
    v = unit(v)
    w = rdir(rng)
    while sum(c * c for c in cross(v, w)) < 0.05:
        w = [rng.gauss(0, 1) for _ in range(3)]
    w = unit(cross(v, w))
    a = math.radians(deg)
    c = cross(w, v)
    return [math.cos(a) * v[i] + math.sin(a) * c[i] for i in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def pt(rng, s=50):
    return [rng.choice([0, 0, round(rng.uniform(-s, s), 3)]) if rng.random() < 0.4 else rng.uniform(-s, s) for _ in range(3)]


def mkdatum(rng, name, kind=None, direction=None):
    kind = kind or rng.choice(["point", "axis", "plane", "circle", "plane", "axis"])
    o = pt(rng)
    v = direction or rdir(rng)
    if rng.random() < 0.3:
        v = [c * 2.5 for c in v]
    if kind == "point":
        return D(name, DT.POINT, origin=o)
    if kind == "axis":
        return D(name, DT.AXIS, origin=o, direction=v)
    if kind == "plane":
        return D(name, DT.PLANE, origin=o, normal=v)
    if kind == "circle":
        return D(name, DT.CIRCLE, origin=o, normal=v, radius=rng.uniform(1, 30))
    return D(name, DT.FRAME, origin=o, x_axis=[1, 0, 0], y_axis=[0, 1, 0])


def ddir(d):
    v = d.direction if d.datum_type == DT.AXIS else d.normal
    return unit([float(c) for c in v[:3]]) if v is not None else [0.0, 0.0, 1.0]


def rigid(rng, s=60):
    q = unit([rng.gauss(0, 1) for _ in range(4)])
    if rng.random() < 0.25:
        q = [1.0, 0, 0, 0]
    w, x, y, z = q
    T = np.eye(4)
    T[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    T[:3, 3] = pt(rng, s)
    return T


def is_rigid(T):
    return getattr(T, "shape", None) == (4, 4) and np.all(np.isfinite(T)) and np.abs(T[3] - [0, 0, 0, 1]).max() < 1e-9 and np.abs(T[:3, :3].T @ T[:3, :3] - np.eye(3)).max() < 1e-9 and np.linalg.det(T[:3, :3]) > 0


def sinang(a, b):
    return math.sqrt(max(0.0, dot(cross(a, b), cross(a, b))))


SOLVED = ["COINCIDENT", "FLUSH", "RIGID", "CONCENTRIC", "REVOLUTE", "PARALLEL", "PERPENDICULAR", "DISTANCE", "ANGLE"]
UNSOLVED = ["PRISMATIC", "CYLINDRICAL", "SPHERICAL", "PLANAR", "PIN_SLOT", "UNIVERSAL", "SCREW", "GEAR", "CAM", "SLOT", "TANGENT", "RACK_PINION"]


def relation(kind, a, b, T, offset, angle):
    """distance of placement T (child in the parent's frame) from the relation; message or None"""
    if not is_rigid(T):
        return "not a rigid placement"
    R, t = T[:3, :3], T[:3, 3]
    ob = R @ np.array(b.origin[:3], float) + t
    oa = np.array(a.origin[:3], float)
    da, db = np.array(ddir(a)), R @ np.array(ddir(b))
    sc = 1e-8 * (1 + np.abs(oa).max() + np.abs(np.array(b.origin[:3], float)).max() + abs(offset))
    if kind in ("COINCIDENT", "FLUSH", "RIGID"):
        return ("origin off by %g" % np.linalg.norm(ob - oa - offset * da)) if np.linalg.norm(ob - oa - offset * da) > sc else ("directions not opposed: %g" % np.linalg.norm(da + db)) if np.linalg.norm(da + db) > 1e-8 else None
    if kind == "ALIGNED":
        return ("origin off by %g" % np.linalg.norm(ob - oa - offset * da)) if np.linalg.norm(ob - oa - offset * da) > sc else ("directions differ: %g" % np.linalg.norm(da - db)) if np.linalg.norm(da - db) > 1e-8 else None
    if kind in ("CONCENTRIC", "REVOLUTE"):
        v = ob - oa
        if np.linalg.norm(v - np.dot(v, da) * da) > sc:
            return "axes not colinear"
        return ("directions differ: %g" % np.linalg.norm(da - db)) if np.linalg.norm(da - db) > 1e-8 else None
    if kind == "PARALLEL":
        return ("directions differ: %g" % np.linalg.norm(da - db)) if np.linalg.norm(da - db) > 1e-8 else None
    if kind == "PERPENDICULAR":
        return ("directions not perpendicular: %g" % np.dot(da, db)) if abs(np.dot(da, db)) > 1e-8 else None
    if kind == "DISTANCE":
        d = np.dot(ob - oa, da)
        return ("child datum at distance %g" % d) if abs(d - offset) > sc else None
    if kind == "ANGLE":
        # a turn by `angle` about the parent direction
        if abs(np.trace(R) - 1 - 2 * math.cos(angle)) > 1e-8 or np.linalg.norm(R @ da - da) > 1e-8:
            return "not the turn asked for"
        w = np.array(cross(da, [1, 0, 0] if abs(da[0]) < 0.9 else [0, 1, 0]))
        w /= np.linalg.norm(w)
        return None if abs(np.dot(np.cross(w, R @ w), da) - math.sin(angle)) < 1e-8 else "turned the wrong way"


def datum_pair(ctx, rng):
    k1 = rng.choice(["point", "axis", "plane", "circle", "plane", "axis"])
    a = mkdatum(rng, "da", k1)
    d, k = None, rng.random()
    if k < 0.3:
        deg = rng.choice([0, 0.01, 0.05, 0.2, 0.5, 0.75, 1.5, 1e-4]) + rng.choice([0, 180])
        d = nudge(rng, ddir(a), deg)
        ctx.ev("near-aligned" if deg < 90 else "anti")
    return a, mkdatum(rng, "db", rng.choice(["point", "axis", "plane", "circle", "plane", "axis"]) if d is None else rng.choice(["axis", "plane", "circle"]), d)


def g_solve(ctx, rng):
    """a history of solve calls through one solver"""
    REG.clear()
    n = rng.randint(2, 5)
    pairs = []
    for i in range(n):
        a, b = datum_pair(ctx, rng)
        REG.register_source("A%d" % i, {"da": a})
        REG.register_source("B%d" % i, {"db": b})
        pairs.append((a, b))
    samename = rng.random() < 0.5
    if rng.random() < 0.3:
        # several joints between the same two parts, distinguished by their datums or a small offset
        ctx.ev("same-parts")
        mode = rng.randrange(4)
        close = mode == 0
        for i in range(n):
            pairs[i] = (pairs[0][0] if mode in (0, 1) else pairs[i][0], pairs[0][1] if mode in (0, 2) else pairs[i][1])
        REG.register_source("SA", {"da%d" % i: pairs[i][0] for i in range(n)})
        REG.register_source("SB", {"db%d" % i: pairs[i][1] for i in range(n)})
        shared = "close" if close else "datums"
    else:
        shared = None
    mates = []
    for i in range(n):
        kind = rng.choice(SOLVED if rng.random() < 0.93 else UNSOLVED)
        off = rng.choice([0.0, rng.uniform(-20, 20)])
        ang = rng.choice([0.0, rng.uniform(-3, 3), math.pi / 2])
        if shared == "datums" and i and rng.random() < 0.6:
            kind, off, ang = mates[0][:3]
        if shared == "close" and i:
            kind, off = mates[0][0], mates[0][1] + rng.choice([1e-3, 0.004, -0.02, 0.03])
        if shared:
            mates.append((kind, off, ang, M("m" if samename else "m%d" % i, MT[kind], "SA", "da%d" % (i if mode > 1 else 0), "SB", "db%d" % (i if mode in (1, 3) else 0), offset=off, angle=ang)))
            continue
        mates.append((kind, off, ang, M("m" if samename else "m%d" % i, MT[kind], "A%d" % i, "da", "B%d" % i, "db", offset=off, angle=ang)))
    ctx.case(("S", tuple((m[0], round(m[1], 6), round(m[2], 6)) for m in mates)))
    s = S.MateConstraintSolver(use_cache=rng.random() < 0.85)
    done = set()
    for step in range(rng.randint(3, 10)):
        i = rng.randrange(n)
        kind, off, ang, m = mates[i]
        P = rigid(rng) if rng.random() < 0.5 else None
        info = {"mate": kind, "offset": off, "angle": ang, "a": repr(pairs[i][0]), "b": repr(pairs[i][1]), "step": step, "parent": None if P is None else P.tolist(), "names": samename, "earlier": sorted(done)}
        how = rng.random()
        if how < 0.2:
            r = s.solve_all([m], {m.part_a: P} if P is not None else None)[m.name]
        else:
            r = s.solve_mate(m, P) if P is not None else s.solve_mate(m)
        if kind in UNSOLVED:
            ctx.ev("fail")
            ctx.check(not r.success and r.transform is None and r.error_message, "solve-unsupported", "an unsupported mate type was 'solved'", info)
            continue
        ctx.ev("solve")
        if i in done:
            ctx.ev("again")
        if samename and done - {i}:
            ctx.ev("same-name")
        done.add(i)
        if not r.success:
            ctx.viol("solve-fails", "a supported mate was not solved: " + str(r.error_message), info)
            continue
        T = np.array(r.transform, float)
        if P is not None:
            ctx.ev("parented")
            T = np.linalg.inv(P) @ T
        msg = relation(kind, *pairs[i], T, off, ang)
        ctx.check(msg is None, "relation-" + kind, msg, info)
        if rng.random() < 0.3:
            ctx.ev("mutated")
            r.transform[:3, 3] += 7.0
        if rng.random() < 0.15:
            s.invalidate_cache(rng.choice([None, m.name]))
    # remapping
    kind, off, ang, m = mates[0]
    if kind in SOLVED:
        base = s.solve_mate(m).transform
        for ax in ("X", "Y", "Z", "-X", "-Y", "-Z"):
            T = s.solve_mate(m, mate_axis=ax).transform
            ctx.ev("axis-remap")
            U = S.apply_mate_axis_rotation(base, ax)
            ctx.check(is_rigid(T) and np.abs(T - U).max() < 1e-9 and np.abs(T[:3, 3] - base[:3, 3]).max() < 1e-9, "axis-remap", "remapping the mate axis is not a pure re-orientation", {"axis": ax})
            want = {"X": 0, "Y": 1, "Z": 2}[ax[-1]]
            Rm = base[:3, :3].T @ T[:3, :3]
            ctx.check(abs(abs(Rm[2, want]) - 1) < 1e-9, "axis-remap", "the mate axis is not exchanged with Z", {"axis": ax})
        ctx.check(np.abs(s.solve_mate(m).transform - base).max() < 1e-12, "axis-remap", "remapped solves changed the plain one", {})
    # unknown datums
    for bad in (M("u", MT.COINCIDENT, "A0", "nope", "B0", "db"), M("u", MT.COINCIDENT, "A0", "da", "ZZ", "db")):
        ctx.ev("fail")
        r = s.solve_mate(bad)
        ctx.check(not r.success and r.transform is None and r.error_message, "solve-unknown", "a mate on an unknown datum was 'solved'", {"r": str(r)})


def g_chain(ctx, rng):
    REG.clear()
    n = rng.randint(2, 7)
    B = rigid(rng) if rng.random() < 0.7 else None
    mates, parent = [], {}
    branch = False
    for i in range(1, n + 1):
        p = i - 1 if rng.random() < 0.6 else rng.randrange(i)
        branch |= p != i - 1
        a, b = datum_pair(ctx, rng)
        a.name, b.name = "up%d" % i, "down%d" % i
        REG.register_datum("P%d" % p, a)
        REG.register_datum("P%d" % i, b)
        kind = rng.choice(["COINCIDENT", "CONCENTRIC", "RIGID", "DISTANCE", "REVOLUTE"])
        off = rng.choice([0.0, rng.uniform(-9, 9)])
        parent[i] = (p, kind, a, b, off)
        mates.append(M("j%d" % i, MT[kind], "P%d" % p, a.name, "P%d" % i, b.name, offset=off))
    ctx.case(("C", tuple((i, parent[i][0], parent[i][1]) for i in parent)))
    ctx.ev("chain")
    if branch:
        ctx.ev("branch")
    s = S.MateConstraintSolver() if rng.random() < 0.6 else None
    for rep in range(2 if s else 1):
        Bn = B if rep == 0 else rigid(rng)
        W = S.solve_mate_chain(mates, Bn, s) if s else S.solve_mate_chain(mates, Bn)
        ctx.check(sorted(W) == sorted("P%d" % i for i in parent), "chain", "the chain does not place every part", {"keys": sorted(W)})
        W = dict(W)
        W["P0"] = Bn if Bn is not None else np.eye(4)
        for i, (p, kind, a, b, off) in parent.items():
            if "P%d" % i not in W or "P%d" % p not in W:
                continue
            T = np.linalg.inv(W["P%d" % p]) @ W["P%d" % i]
            msg = relation(kind, a, b, T, off, 0)
            ctx.check(msg is None, "chain", "a part of a chain is not placed on its own parent: %s" % msg, {"part": i, "parent": p, "tree": {k: v[0] for k, v in parent.items()}, "kind": kind, "rep": rep})


def g_face(ctx, rng):
    REG.clear()
    kind = rng.choice(["COINCIDENT", "COINCIDENT", "FLUSH", "ALIGNED", "CONCENTRIC", "PARALLEL"])
    a, b = datum_pair(ctx, rng)
    while "point" in (a.datum_type.value, b.datum_type.value):
        a, b = datum_pair(ctx, rng)
    REG.register_source("PA", {"da": a})
    REG.register_source("PB", {"db": b})
    off = rng.choice([0.0, rng.uniform(-10, 10)])
    rot = rng.choice([0.0, rng.uniform(-170, 170)]) if kind in ("COINCIDENT", "FLUSH", "ALIGNED") else 0.0
    ctx.case(("F", kind, repr(a), repr(b), off, rot))
    if kind == "COINCIDENT" and rng.random() < 0.4:
        f = F.create_face_mate("f", "pa", "da", "pb", "db", "PA", "PB", offset=off, rotation=rot)
    elif kind == "CONCENTRIC" and rng.random() < 0.4:
        f = F.create_axis_mate("f", "PA", "da", "PB", "db", offset=off)
    else:
        f = F.FaceToFaceMate("f", "PA", "da", "PB", "db", constraint=MT[kind], offset_distance=off, rotation_about_normal=rot)
    info = {"kind": kind, "a": repr(a), "b": repr(b), "offset": off, "rotation": rot}
    for k in range(rng.randint(1, 4)):
        ctx.ev("face-again" if k else "face")
        P = rigid(rng) if rng.random() < 0.6 else None
        T = f.compute_transform(P) if P is not None else f.compute_transform()
        if P is not None:
            T = np.linalg.inv(P) @ T
        msg = relation(kind, a, b, T, off, 0)
        ctx.check(msg is None, "face-" + kind, "a face mate is not satisfied: %s" % msg, dict(info, call=k, parent=P is not None))
        if k == 0:
            T0 = T.copy()
        else:
            ctx.check(np.abs(T - T0).max() < 1e-7, "face-again", "computing the mate again gives another placement", dict(info, call=k))
        if kind == "CONCENTRIC":
            o = T[:3, :3] @ np.array(b.origin[:3], float) + T[:3, 3] - np.array(a.origin[:3], float)
            ctx.check(abs(np.dot(o, ddir(a)) - off) < 1e-6, "face-offset", "a concentric mate is not at its offset along the axis", info)
        if rng.random() < 0.7:
            v = f.validate()
            ctx.check(v.satisfied and v.error_distance < 1e-4 and v.error_angle < 1e-3, "face-validate", "a solved face mate is reported as not satisfied", dict(info, v=str(v)))
        if rng.random() < 0.3:
            f.invalidate_cache()
    if rot:
        # rotation turns the unrotated placement about the parent's normal through its origin
        g = F.FaceToFaceMate("f", "PA", "da", "PB", "db", constraint=MT[kind], offset_distance=off)
        U = g.compute_transform()
        Q = T0 @ np.linalg.inv(U)
        da, oa = np.array(ddir(a)), np.array(a.origin[:3], float)
        w = np.array(cross(da, [1, 0, 0] if abs(da[0]) < 0.9 else [0, 1, 0]))
        w /= np.linalg.norm(w)
        ok = is_rigid(Q) and np.linalg.norm(Q[:3, :3] @ oa + Q[:3, 3] - oa) < 1e-7 and np.linalg.norm(Q[:3, :3] @ da - da) < 1e-8
        got = math.degrees(math.atan2(np.dot(np.cross(w, Q[:3, :3] @ w), da), np.dot(w, Q[:3, :3] @ w)))
        ctx.check(ok and abs((got - rot + 180) % 360 - 180) < 1e-6, "face-rotation", "rotation_about_normal is not a rotation about the mating axis by that angle", dict(info, got=got))
    bad = F.FaceToFaceMate("f", "PA", "da", "PB", "nope")
    try:
        bad.compute_transform()
        ctx.viol("face-unknown", "a mate on an unknown datum was computed", info)
    except KeyError:
        pass
    ctx.check(not bad.validate().satisfied, "face-unknown", "a mate on an unknown datum is reported as satisfied", info)


def ref_coincident(a, b):
    """(distance, angle or None) the report should carry"""
    oa, ob = [float(c) for c in a.origin[:3]], [float(c) for c in b.origin[:3]]
    v = [y - x for x, y in zip(oa, ob)]
    ta, tb = a.datum_type.value, b.datum_type.value

    def lineang():
        p, q = ddir(a), ddir(b)
        return math.degrees(math.atan2(sinang(p, q), abs(dot(p, q))))
    full = math.sqrt(dot(v, v))
    if ta == tb == "circle":
        return full, lineang()
    if ta == tb == "plane":
        return abs(dot(v, ddir(a))), lineang()
    if ta == tb == "axis":
        return sinang(v, ddir(a)), lineang()
    if (ta, tb) == ("point", "plane"):
        return abs(dot(v, ddir(b))), None
    if (ta, tb) == ("plane", "point"):
        return abs(dot(v, ddir(a))), None
    return full, None


def g_coincident(ctx, rng):
    ka = rng.choice(["point", "axis", "plane", "circle", "frame"])
    kb = ka if rng.random() < 0.6 else rng.choice(["point", "axis", "plane", "circle", "frame"])
    a = mkdatum(rng, "a", ka)
    near = rng.random() < 0.65
    d = None
    if near and ka != "point" and kb != "point":
        d = nudge(rng, ddir(a), rng.choice([0, 0.3, 0.9, 1.1, 3]) + rng.choice([0, 180]))
    b = mkdatum(rng, "b", kb, d)
    if near:
        e = unit([rng.gauss(0, 1) for _ in range(3)])
        s = rng.choice([0, 0.05, 0.09, 0.11, 0.5])
        along = rng.choice([0, 0, 30]) if ka in ("plane", "axis") else 0
        w = ddir(a)
        if ka == "plane":
            w = unit(cross(w, [1, 0, 0] if abs(w[0]) < 0.9 else [0, 1, 0]))
        b.origin = [a.origin[i] + s * e[i] + along * w[i] for i in range(3)] + [1]
    tm = rng.choice([None, 0.1, 0.02, 1.0])
    td = rng.choice([None, 1.0, 0.1, 5.0])
    ctx.case(("K", repr(a), repr(b), tm, td))
    P = rigid(rng)
    kw = {k: v for k, v in (("tolerance_mm", tm), ("tolerance_deg", td)) if v is not None}
    tm, td = tm or 0.1, td or 1.0
    for x, y in ((a, b), (a.transform(P), b.transform(P))):
        r = MM.evaluate_coincident(x, y, **kw)
        dist, ang = ref_coincident(x, y)
        ctx.ev("coincident")
        info = {"a": repr(x), "b": repr(y), "tol": (tm, td), "got": (r.satisfied, r.error_distance, r.error_angle), "want": (dist, ang)}
        ctx.check(abs(r.error_distance - dist) < 1e-6 * (1 + dist), "coincident-distance", "the reported distance is not the true one", info)
        if ang is not None:
            ctx.check(abs(r.error_angle - ang) < 1e-3, "coincident-angle", "the reported angle is not the true one", info)
        if abs(dist - tm) > 1e-6 and (ang is None or abs(ang - td) > 2e-3):
            ok = dist <= tm and (ang is None or ang <= td)
            ctx.ev("coincident:pass" if ok else "coincident:fail")
            ctx.check(bool(r.satisfied) == ok, "coincident-verdict", "satisfied does not follow from the distance and angle", info)
    # bolt circles
    c1 = mkdatum(rng, "c1", "circle")
    c2 = D("c2", DT.CIRCLE, origin=[c1.origin[i] + rng.choice([0, 0, 0.03, 0.3]) for i in range(3)], normal=[rng.choice([1, -1]) * c for c in c1.normal[:3]] if rng.random() < 0.8 else nudge(rng, c1.normal[:3], 2),
           radius=c1.radius + rng.choice([0, 0, 0.05, 0.2]))
    holes = rng.choice([3, 4, 6, 8])
    off = rng.choice([0, 0, 0.02, 1, 170 / holes])
    ctx.ev("bolt")
    r = MM.check_bolt_circle_alignment(c1, c2, holes, tolerance_mm=0.1, angular_offset_deg=off)
    dist, ang = ref_coincident(c1, c2)
    # distance of a hole pair: the chord of the angular offset, radius difference and centre offset; compare only clear cases
    dr = abs(c1.radius - c2.radius)
    chord = 2 * c1.radius * math.sin(math.radians(off) / 2)
    worst, best = chord + dr + dist, max(0.0, chord - dr - dist)
    info = {"c1": repr(c1), "c2": repr(c2), "holes": holes, "off": off, "got": str(r), "dist": dist, "dr": dr, "chord": chord}
    if dist < 0.099 and dr < 0.099 and worst < 0.099 and ang < 0.99:
        ctx.check(r.satisfied, "bolt", "aligned bolt circles are reported as misaligned", info)
    elif dist > 0.101 or dr > 0.101 or best > 0.101 or ang > 1.01:
        ctx.check(not r.satisfied, "bolt", "misaligned bolt circles are reported as aligned", info)


DOF = dict(RIGID=0, REVOLUTE=1, PRISMATIC=1, SCREW=1, CYLINDRICAL=2, PIN_SLOT=2, UNIVERSAL=2, SPHERICAL=3, PLANAR=3, COINCIDENT=3, CONCENTRIC=2, PARALLEL=4, PERPENDICULAR=5, TANGENT=5, DISTANCE=5, ANGLE=5)
OKTYPES = dict(COINCIDENT={"point", "plane", "circle", "axis", "frame"}, CONCENTRIC={"axis", "circle"}, PARALLEL={"axis", "plane"}, PERPENDICULAR={"axis", "plane"})


def g_mate(ctx, rng):
    kind = rng.choice(list(MT))
    lim = None

    def opt(lo, hi):
        return rng.choice([None, round(rng.uniform(lo, hi), 3)])
    if rng.random() < 0.8:
        lim = MM.MateLimits(min_value=opt(-5, 0), max_value=opt(0, 5), min_velocity=opt(-3, 0), max_velocity=opt(0, 3), min_effort=opt(-9, 0), max_effort=opt(0, 9), min_secondary=opt(-1, 0), max_secondary=opt(0, 1),
                            limit_stiffness=rng.choice([1e6, 5.0]), limit_damping=rng.choice([1e3, 2.0]), restitution=rng.choice([0.0, 0.5]))
    dyn = MM.MateDynamics(*[round(rng.uniform(0, 1), 3) for _ in range(6)]) if rng.random() < 0.5 else None
    m = M("m", kind, "a", "x", "b", "y", offset=rng.choice([0.0, 2.5, -0.0001]), angle=rng.choice([0.0, 1.25]), axis=rng.choice([[0, 0, 1, 0], [0, 1, 0, 0]]), secondary_axis=rng.choice([[1, 0, 0, 0], [0, 0, 1, 0]]),
          limits=lim, dynamics=dyn, coupling_ratio=rng.choice([1.0, -2.0, 0.25]), coupling_offset=rng.choice([0.0, 0.5]), coupling_reverse=rng.random() < 0.5, coupling_pitch=rng.choice([None, 2.0, 0.8]), metadata=rng.choice([{}, {"k": [1]}]))
    ctx.case(("M", repr(m)))
    ctx.ev("roundtrip")
    ctx.check(M.from_dict(json.loads(json.dumps(m.to_dict()))) == m, "mate-roundtrip", "a mate does not survive its dictionary", {"m": repr(m)})
    ctx.check((m.part1, m.datum1, m.part2, m.datum2) == ("a", "x", "b", "y"), "mate-alias", "the part1/datum1 aliases do not name the same things", {})
    if kind.name in DOF:
        ctx.check(m.degrees_of_freedom() == DOF[kind.name], "mate-dof", "degrees of freedom differ from the documented table", {"kind": kind.name, "got": m.degrees_of_freedom()})
    for _ in range(4):
        p = rng.choice([None, round(rng.uniform(-6, 6), 2)])
        v = rng.choice([None, round(rng.uniform(-4, 4), 2)])
        e = rng.choice([None, round(rng.uniform(-11, 11), 2)])
        r = m.evaluate(p, v, e)
        ctx.ev("limits")
        want, err = set(), 0.0
        if lim:
            if p is not None and lim.min_value is not None and p < lim.min_value:
                want.add("min_value"); err += lim.min_value - p
            if p is not None and lim.max_value is not None and p > lim.max_value:
                want.add("max_value"); err += p - lim.max_value
            if v is not None and lim.min_velocity is not None and v < lim.min_velocity:
                want.add("min_velocity")
            if v is not None and lim.max_velocity is not None and abs(v) > lim.max_velocity:
                want.add("max_velocity")
            if e is not None and lim.min_effort is not None and e < lim.min_effort:
                want.add("min_effort")
            if e is not None and lim.max_effort is not None and abs(e) > lim.max_effort:
                want.add("max_effort")
        got = {s.split(":")[0] for s in r["limit_violations"]}
        info = {"limits": repr(lim), "state": (p, v, e), "r": r}
        ctx.check(got == want, "mate-limits", "the limit violations reported are not the ones that occurred", info)
        ctx.check(abs(r["error"] - err) < 1e-9 and r["satisfied"] == (err == 0) and r["dynamics_active"] == (dyn is not None), "mate-limits", "error or satisfied does not follow from the position limits", info)
    x = rng.uniform(-10, 10)
    coupled = kind.name in ("GEAR", "RACK_PINION", "SCREW", "CAM")
    ctx.check(m.is_coupled() == coupled, "mate-coupled", "is_coupled() is wrong", {"kind": kind.name})
    mc = m if coupled else M("c", rng.choice([MT.GEAR, MT.SCREW]), "a", "x", "b", "y", coupling_ratio=m.coupling_ratio, coupling_offset=m.coupling_offset, coupling_reverse=m.coupling_reverse, coupling_pitch=m.coupling_pitch)
    ctx.ev("coupled")
    rate = mc.coupling_pitch / (2 * math.pi) if mc.mate_type == MT.SCREW and mc.coupling_pitch is not None else mc.coupling_ratio
    want = (x * rate + mc.coupling_offset) * (-1 if mc.coupling_reverse else 1)
    ctx.check(abs(mc.compute_coupled_motion(x) - want) < 1e-9 * (1 + abs(want)), "mate-coupled", "the driven position does not follow ratio, pitch, offset and direction", {"m": repr(mc), "x": x, "got": mc.compute_coupled_motion(x), "want": want})
    if not coupled:
        try:
            m.compute_coupled_motion(x)
            ctx.viol("mate-coupled", "an uncoupled mate computed a coupled motion", {"kind": kind.name})
        except ValueError:
            pass
    for kn, ok in OKTYPES.items():
        da, db = mkdatum(rng, "a", rng.choice(["point", "axis", "plane", "circle", "frame"])), mkdatum(rng, "b", rng.choice(["point", "axis", "plane", "circle", "frame"]))
        issues = M("m", MT[kn], "a", "a", "b", "b").validate(da, db)
        ctx.ev("compat")
        ctx.check((not issues) == (da.datum_type.value in ok and db.datum_type.value in ok), "mate-compat", "datum compatibility differs from the documented table", {"kind": kn, "a": da.datum_type.value, "b": db.datum_type.value, "issues": issues})
    # helpers
    lo, hi = sorted((rng.uniform(-3, 3), rng.uniform(-3, 3)))
    h = MM.create_revolute_mate("h", "a", "x", "b", "y", min_angle=lo, max_angle=hi, max_velocity=2.0, max_torque=rng.choice([None, 5.0]), friction=0.1)
    g = MM.create_prismatic_mate("h", "a", "x", "b", "y", min_position=lo, max_position=hi, max_force=4.0, damping=0.2)
    for q in (h, g):
        p = rng.uniform(-4, 4)
        ctx.check(bool(q.evaluate(p)["satisfied"]) == (lo <= p <= hi), "mate-helper", "the limits given to a joint helper are not the joint's", {"p": p, "lo": lo, "hi": hi})
    ctx.check(h.mate_type == MT.REVOLUTE and g.mate_type == MT.PRISMATIC and g.limits.max_effort == 4.0 and h.limits.max_velocity == 2.0 and g.dynamics.damping == 0.2 and h.dynamics.friction_static == 0.1, "mate-helper", "a joint helper lost a parameter", {})
    gr = MM.create_gear_mate("g", "a", "x", "b", "y", ratio=m.coupling_ratio, reverse=m.coupling_reverse)
    ctx.check(abs(gr.compute_coupled_motion(x) - x * m.coupling_ratio * (-1 if m.coupling_reverse else 1)) < 1e-9, "mate-helper", "a gear helper's motion is not ratio and direction", {})


def g_tfm(ctx, rng):
    s = S.MateConstraintSolver()
    T = rigid(rng)
    ctx.case(("T", T.tobytes()))
    ctx.ev("rigid")
    ctx.check(s.validate_transform(T).valid, "validate-rigid", "a rigid transform is refused", {"T": T.tolist()})
    U = T.copy()
    k = rng.randrange(6)
    if k == 0:
        U[:3, rng.randrange(3)] *= rng.choice([-1, 1.01, 0.5])
    elif k == 1:
        U[3, rng.randrange(4)] += rng.choice([0.1, -1])
    elif k == 2:
        U[:3, :3] *= rng.choice([2, 0.9, -1])
    elif k == 3:
        i, j = rng.sample(range(3), 2)
        U[:3, i] += 0.01 * U[:3, j]
    elif k == 4:
        U = U[:3, :3]
    else:
        U = U[:3]
    ctx.ev("nonrigid")
    v = s.validate_transform(U)
    ctx.check(not v.valid and v.error_messages, "validate-nonrigid", "a non-rigid transform is accepted", {"T": U.tolist(), "k": k})


GROUPS = {"solve": (g_solve, 900, 25000), "chain": (g_chain, 350, 10000), "face": (g_face, 600, 15000), "coincident": (g_coincident, 900, 25000), "mate": (g_mate, 350, 10000), "tfm": (g_tfm, 250, 4000)}

if __name__ == "__main__":
    vf.main(globals())
