import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json, logging, math, random, shutil, tempfile
import vf

PROP = "C38"
LEVEL = "exploration"
META = dict(
    title="Kinematic constraints judge assembled positions, clearances and collisions",
    statement="Each kinematic constraint passes exactly when its relation holds between the world poses it is given (4x4 arrays, nested lists or Transform objects alike): coincident and at-distance compare origins, bounding-box faces or named sub-frames; concentric, parallel, perpendicular, tangent and bolt-pattern compare the turned axes, whichever way they point; minimum distance is the distance of the world bounding boxes when given, of points otherwise; Z-stack clearance compares the vertical extents of the parts as placed, tilted or upside down; no-overlap compares world boxes, or the meshes. The reported error is the violation. A missing frame, face, axis, bound or parameter makes the constraint fail with a message, never pass and never raise, and evaluating again with other poses leaves no trace of earlier ones. Mesh collision never reports bodies that are apart or merely touch (a shaft in its bore), and reports those where a vertex of one, or the middle of the common box, lies inside the other; the answer does not change from call to call. The validator's counts, lists, is_valid, report and exception follow the results by severity.",
    over=["inputs", "histories"], q="for all constraints, poses, bounds, bodies and sequences of evaluations",
    why="These constraints are what stands between a robot assembly with interpenetrating parts and the printer: one that measures the wrong face or a random subset of a mesh passes it.",
    files=["src/yapcad/assembly/kinematic_integration.py"],
    mech=[("KinematicConstraint", "src/yapcad/assembly/kinematic_integration.py"), ("AssemblyValidator", "src/yapcad/assembly/kinematic_integration.py"), ("check_mesh_collision", "src/yapcad/assembly/kinematic_integration.py"), ("_check_collision_sampling", "src/yapcad/assembly/kinematic_integration.py")],
    technique="random constraints evaluated on sequences of poses against an independent geometric evaluator; meshes of bodies with a closed-form inside test posed apart, touching, nested and overlapping",
    note="Exploration. Verdicts within 1e-6 of the tolerance and boxes that merely touch are not judged. Tangency is in the XY projection and bolt patterns compare centre and normal only, as implemented. Penetration depths of meshes are estimates and only required not to be negative. The FCL collision manager is not installed here; its branch is not reached.",
)
RULE = "random constraints, poses and bodies; distinct by the recipe"
REQUIRE = {"constraint": 6000, "pass": 1500, "fail": 2500, "invalid": 800, "again": 2500, "box": 900, "face": 150, "frame": 80, "helper": 800, "validator": 300, "raised": 60, "valid": 80,
           "mesh": 250, "mesh:apart": 60, "mesh:hit": 60, "mesh:touch": 15, "mesh:nested": 15, "mesh:error": 20, "mesh:constraint": 40, "mesh:many": 60}
WALL_QUICK = 200


def init():
    global np, K, KC, T, CR, AV, tmp, BODIES
    import numpy as np
    from yapcad.assembly import kinematic_integration as K
    KC, T, CR, AV = K.KinematicConstraint, K.KinematicConstraintType, K.ConstraintEvaluationResult, K.AssemblyValidator
    logging.disable(logging.CRITICAL)
    tmp = tempfile.mkdtemp(prefix="c38-")
    BODIES = bodies()


def fini():
    shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- linear algebra of our own
def mul(M, p):
    return [sum(M[i][j] * p[j] for j in range(3)) + M[i][3] for i in range(3)]


def turn(M, v):
    return [sum(M[i][j] * v[j] for j in range(3)) for i in range(3)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nrm(a):
    return math.sqrt(dot(a, a))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def unit(v):
    n = nrm(v)
    return [c / n for c in v]


def lineangle(a, b):
    x = math.degrees(math.atan2(nrm(cross(a, b)), abs(dot(a, b))))
    return x


def rot(axis, deg):
    x, y, z = unit(axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    t = 1 - c
    return [[t * x * x + c, t * x * y - s * z, t * x * z + s * y], [t * x * y + s * z, t * y * y + c, t * y * z - s * x], [t * x * z - s * y, t * y * z + s * x, t * z * z + c]]


def pose(rng, span=60):
    k = rng.randrange(5)
    if k == 0:
        R = rot([0, 0, 1], 0)
    elif k == 1:
        R = rot(rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), rng.choice([90, 180, 270]))
    elif k == 2:
        R = rot(rng.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), rng.uniform(-180, 180))
    else:
        R = rot([rng.gauss(0, 1) for _ in range(3)], rng.uniform(-180, 180))
    t = [round(rng.uniform(-span, span), 3) if rng.random() < 0.8 else 0.0 for _ in range(3)]
    return [R[i] + [t[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]


class Obj:
    def __init__(self, m):
        self.matrix = m


def dress(rng, M):
    k = rng.randrange(4)
    if k == 0:
        return [list(r) for r in M]
    if k == 1:
        return Obj(np.array(M))
    if k == 2:
        return tuple(tuple(r) for r in M)
    return np.array(M)


AX = {"x": [1, 0, 0], "y": [0, 1, 0], "z": [0, 0, 1], "-x": [-1, 0, 0], "-y": [0, -1, 0], "-z": [0, 0, -1]}


def axis(spec):
    if isinstance(spec, str):
        return AX.get(spec.lower())
    v = list(spec)[:3]
    return None if nrm(v) < 1e-10 else unit(v)


def boxw(M, b):
    cs = [mul(M, [b[i][0], b[j][1], b[k][2]]) for i in (0, 1) for j in (0, 1) for k in (0, 1)]
    return [min(c[i] for c in cs) for i in range(3)], [max(c[i] for c in cs) for i in range(3)]


FACES = {"TOP": (2, 1), "BOTTOM": (2, 0), "FRONT": (1, 1), "BACK": (1, 0), "RIGHT": (0, 1), "LEFT": (0, 0)}


def facepos(part, face, bounds, W):
    """world position of a face, or None when it cannot be located"""
    if face.upper() in FACES and bounds is not None:
        i, side = FACES[face.upper()]
        p = [(bounds[0][k] + bounds[1][k]) / 2 for k in range(3)]
        p[i] = bounds[side][i]
        return mul(W[part], p)
    for key in (part + "." + face, face):
        if key in W:
            return [W[key][i][3] for i in range(3)]
    return None


def org(M):
    return [M[i][3] for i in range(3)]


def ref(c, W):
    """(None, message wanted) or (margin, satisfied, error): margin says how far the verdict is from its tolerance"""
    t = c.constraint_type
    if c.frame_a not in W or (c.frame_b is not None and c.frame_b not in W):
        return None
    A = W[c.frame_a]
    B = W[c.frame_b] if c.frame_b is not None else None
    boxes = c.bounds_a is not None and c.bounds_b is not None and B is not None
    if t in (T.COINCIDENT, T.AT_DISTANCE, T.MIN_DISTANCE):
        if t != T.COINCIDENT and c.reference_radius is None:
            return None
        usebox = t == T.MIN_DISTANCE and boxes
        if B is None and c.reference_center is None:
            return None
        if usebox:
            a, b = boxw(A, c.bounds_a), boxw(B, c.bounds_b)
            g = [max(a[0][i] - b[1][i], b[0][i] - a[1][i]) for i in range(3)]
            d = nrm([max(x, 0) for x in g]) if max(g) > 0 else max(g)
        else:
            pa = org(A) if c.face_a is None else facepos(c.frame_a, c.face_a, c.bounds_a, W)
            pb = (list(c.reference_center)[:3] if B is None else org(B) if c.face_b is None else facepos(c.frame_b, c.face_b, c.bounds_b, W))
            if pa is None or pb is None:
                return None
            d = nrm(sub(pa, pb))
        if t == T.COINCIDENT:
            return abs(d - c.tolerance_mm), d <= c.tolerance_mm, d
        if t == T.AT_DISTANCE:
            e = abs(d - c.reference_radius)
            return abs(e - c.tolerance_mm), e <= c.tolerance_mm, e
        return abs(d - c.reference_radius), d >= c.reference_radius, max(0.0, c.reference_radius - d)
    if t in (T.CONCENTRIC, T.PARALLEL, T.PERPENDICULAR, T.BOLT_PATTERN):
        if t == T.BOLT_PATTERN and (c.pattern_count < 2 or c.pattern_radius <= 0):
            return None
        la = axis(c.axis_a)
        if la is None:
            return None
        a = turn(A, la)
        if B is not None:
            lb = axis(c.axis_b)
            if lb is None:
                return None
            b, ob = turn(B, lb), org(B)
        else:
            rv = c.reference_normal if t == T.BOLT_PATTERN else c.reference_axis
            if rv is None or (t in (T.CONCENTRIC, T.BOLT_PATTERN) and c.reference_center is None):
                return None
            if nrm(rv) < 1e-10:
                return None
            b, ob = unit(rv), None if c.reference_center is None else list(c.reference_center)
        an = lineangle(a, b)
        if t == T.PARALLEL:
            return abs(an - c.tolerance_deg), an <= c.tolerance_deg, an
        if t == T.PERPENDICULAR:
            e = 90 - an
            return abs(e - c.tolerance_deg), e <= c.tolerance_deg, e
        v = sub(ob, org(A))
        d = nrm(v) if t == T.BOLT_PATTERN else nrm(cross(v, unit(a)))
        return (min(abs(an - c.tolerance_deg), abs(d - c.tolerance_mm)), an <= c.tolerance_deg and d <= c.tolerance_mm, max(an, d))
    if t == T.TANGENT:
        la = axis(c.axis_a)
        if c.reference_center is None or la is None:
            return None
        a = turn(A, la)
        r = sub(org(A), c.reference_center)
        if math.hypot(r[0], r[1]) < 1e-10:
            return None
        h = math.hypot(a[0], a[1])
        if h < 1e-10:
            return 1.0, True, 0.0
        if h < 1e-6 or math.hypot(r[0], r[1]) < 1e-6:
            return 0.0, None, None
        e = 90 - lineangle([a[0], a[1], 0], [r[0], r[1], 0])
        return abs(e - c.tolerance_deg), e <= c.tolerance_deg, e
    if t == T.Z_STACK_CLEARANCE:
        if not boxes:
            return None
        a, b = boxw(A, c.bounds_a), boxw(B, c.bounds_b)
        gap = max(a[0][2] - b[1][2], b[0][2] - a[1][2])
        need = c.reference_radius or 0.0
        if abs(gap) < 1e-7 and need == 0:
            return 0.0, None, None
        return abs(gap - need), gap >= need and gap > 0 or (gap >= 0 and need == 0), max(0.0, need - gap) if gap >= 0 else need + min(a[1][2], b[1][2]) - max(a[0][2], b[0][2])
    if t == T.NO_OVERLAP:
        if B is None:
            return None
        if not boxes:
            return 1.0, True, 0.0
        a, b = boxw(A, c.bounds_a), boxw(B, c.bounds_b)
        g = max(max(a[0][i] - b[1][i], b[0][i] - a[1][i]) for i in range(3))
        pen = min(min(a[1][i] - b[0][i], b[1][i] - a[0][i]) for i in range(3))
        return abs(g), g > 0, 0.0 if g > 0 else pen
    raise AssertionError(t)


NAMES = ["BASE", "ARM", "SERVO", "RING"]


def rbounds(rng):
    c = [rng.uniform(-20, 20) for _ in range(3)]
    h = [rng.uniform(0.5, 30) for _ in range(3)]
    return tuple(round(c[i] - h[i], 2) for i in range(3)), tuple(round(c[i] + h[i], 2) for i in range(3))


def world(rng, near=None):
    W = {}
    for n in NAMES:
        if near and rng.random() < 0.6:
            W[n] = [list(r) for r in near]
            if rng.random() < 0.6:          # nearby pose: a small step or turn
                R = rot([rng.gauss(0, 1) for _ in range(3)], rng.choice([0.3, 0.9, 1.2, 5, 90, 180]))
                old = W[n]
                M = [[sum(old[i][k] * R[k][j] for k in range(3)) for j in range(3)] + [old[i][3] + rng.choice([0, 0.05, -0.08, 0.4])] for i in range(3)]
                W[n] = M + [[0, 0, 0, 1.0]]
        else:
            W[n] = pose(rng)
        for f in ("OUTPUT", "INPUT"):
            if rng.random() < 0.7:
                W[n + "." + f] = pose(rng)
    if rng.random() < 0.3:
        W["GLOBAL"] = pose(rng)
    return W


def raxis(rng):
    k = rng.randrange(12)
    if k < 7:
        return rng.choice(list(AX)) if rng.random() < 0.8 else rng.choice(list(AX)).upper()
    if k < 10:
        return tuple(round(rng.uniform(-2, 2), 3) for _ in range(3)) + ((0,) if rng.random() < 0.3 else ())
    return rng.choice(["w", "", (0, 0, 0), (0.0, 0.0, 0.0, 0.0)]) if k == 10 else [0.0, rng.choice([-1.0, 3.0]), 0.0]


def rface(rng):
    k = rng.randrange(10)
    if k < 4:
        return None
    if k < 7:
        f = rng.choice(list(FACES))
        return f if rng.random() < 0.7 else rng.choice([f.lower(), f.title()])
    if k < 9:
        return rng.choice(["OUTPUT", "INPUT", "GLOBAL"])
    return "NOWHERE"


def rcon(rng, i=0):
    t = rng.choice([x for x in T if x is not T.CUSTOM])
    kw = dict(name="c%d" % i, constraint_type=t, frame_a=rng.choice(NAMES))
    k = rng.random()
    if k < 0.72:
        kw["frame_b"] = rng.choice(NAMES)
    elif k < 0.78:
        kw["frame_b"] = "GHOST"
    if rng.random() < 0.03:
        kw["frame_a"] = "GHOST"
    if rng.random() < 0.5:
        kw["face_a"] = rface(rng)
        kw["face_b"] = rface(rng)
    kw["axis_a"], kw["axis_b"] = raxis(rng), raxis(rng)
    if rng.random() < 0.7:
        kw["reference_center"] = tuple(round(rng.uniform(-60, 60), 2) for _ in range(3))
    if rng.random() < 0.85:
        kw["reference_radius"] = rng.choice([0.0, 1.0, 5.0, 20.0, 60.0])
    if rng.random() < 0.8:
        kw["reference_axis"] = rng.choice([(0, 0, 1), (1, 0, 0), (0, -3, 0), (1, 1, 1), (0, 0, 0)])
    if rng.random() < 0.8:
        kw["reference_normal"] = rng.choice([(0, 0, 1), (0, 2, 0), (1, -1, 0.5), (0, 0, 0)])
    kw["pattern_count"] = rng.choice([0, 1, 2, 4, 6, 6, 6])
    kw["pattern_radius"] = rng.choice([0.0, -1.0, 10, 10.5, 20])
    kw["pattern_offset_deg"] = rng.choice([0, 30])
    kw["tolerance_mm"] = rng.choice([0.1, 0.1, 1.0, 10.0, 50.0])
    kw["tolerance_deg"] = rng.choice([1.0, 1.0, 0.5, 10.0, 45.0])
    if rng.random() < 0.75:
        kw["bounds_a"] = rbounds(rng)
    if rng.random() < 0.75:
        kw["bounds_b"] = rbounds(rng)
    kw["severity"] = rng.choice(["error", "error", "warning", "info"])
    return KC(**kw)


def desc(c, W):
    return {"constraint": {k: repr(v) for k, v in vars(c).items() if not k.startswith("_") and k != "validator"}, "world": {k: W[k] for k in sorted(W)}}


def judge(ctx, c, W, res, where):
    want = ref(c, W)
    D = dict(desc(c, W), got=[res.satisfied, res.error, res.error_message, repr(res.details)[:600]], want=repr(want), where=where)
    ctx.check(isinstance(res, CR) and bool(res.satisfied) == res.satisfied, "KinematicConstraint", "evaluate returned no result", D)
    ctx.check(isinstance(res.error_message, str) and len(res.error_message) > 3, "KinematicConstraint", "a result explains itself", D)
    ctx.ev("constraint")
    if want is None:
        ctx.ev("invalid")
        ctx.check(not res.satisfied, "KinematicConstraint", "a constraint that cannot be evaluated passed", D)
        return None
    margin, sat, err = want
    if margin < 1e-6:
        return None
    ctx.ev("pass" if sat else "fail")
    t = c.constraint_type
    if t in (T.MIN_DISTANCE, T.NO_OVERLAP, T.Z_STACK_CLEARANCE) and c.bounds_a is not None and c.bounds_b is not None and c.frame_b:
        ctx.ev("box")
    if (c.face_a or c.face_b) and t in (T.COINCIDENT, T.AT_DISTANCE):
        ctx.ev("frame" if "OUTPUT" in (c.face_a, c.face_b) or "INPUT" in (c.face_a, c.face_b) else "face")
    ctx.check(bool(res.satisfied) == bool(sat), "KinematicConstraint", "%s: verdict differs from the geometry" % t.value, D)
    tol = 1e-6 * (1 + abs(err)) + (1e-5 if t in (T.CONCENTRIC, T.PARALLEL, T.PERPENDICULAR, T.TANGENT, T.BOLT_PATTERN) else 0)
    ctx.check(abs(res.error - err) <= tol, "KinematicConstraint", "%s: reported error differs from the geometry" % t.value, D)
    s = str(res)
    ctx.check(s.startswith("[PASS]" if sat else "[FAIL]") and res.error_message in s, "KinematicConstraint", "str() of the result states another verdict", D)
    if t is T.COINCIDENT and res.error_vector is not None:
        ctx.check(abs(nrm(res.error_vector) - err) < 1e-6 * (1 + err), "KinematicConstraint", "error vector is not as long as the error", D)
    return sat


def g_constraints(ctx, rng):
    c = rcon(rng)
    ctx.case(("con", tuple(sorted((k, repr(v)) for k, v in vars(c).items()))))
    for k in range(3):
        W = world(rng, pose(rng) if rng.random() < 0.7 else None)
        for n in NAMES:
            if rng.random() < 0.03:
                del W[n]
        G = {k: dress(rng, m) for k, m in W.items()}
        keys = sorted(G)
        res = c.evaluate(G)
        if k:
            ctx.ev("again")
        judge(ctx, c, W, res, "evaluation %d of one constraint" % k)
        ctx.check(sorted(G) == keys, "KinematicConstraint", "evaluation changed the dictionary of transforms", desc(c, W))
        if rng.random() < 0.4 and c.frame_b in NAMES:      # pair at exactly the limit's two sides
            near = W.get(c.frame_b)
            if near and c.frame_a != c.frame_b and c.frame_a in W:
                W2 = dict(W)
                W2[c.frame_a] = [list(r) for r in near]
                v = unit([rng.gauss(0, 1) for _ in range(3)])
                r = {T.COINCIDENT: c.tolerance_mm, T.AT_DISTANCE: (c.reference_radius or 0) + c.tolerance_mm, T.CONCENTRIC: c.tolerance_mm, T.BOLT_PATTERN: c.tolerance_mm, T.MIN_DISTANCE: c.reference_radius or 0}.get(c.constraint_type, 1.0) * rng.choice([0.97, 1.03])
                for i in range(3):
                    W2[c.frame_a][i][3] += r * v[i]
                judge(ctx, c, W2, c.evaluate({k: dress(rng, m) for k, m in W2.items()}), "near the limit")


def g_boxes(ctx, rng):
    """bounding boxes placed at chosen gaps along chosen axes"""
    t = rng.choice([T.MIN_DISTANCE, T.Z_STACK_CLEARANCE, T.NO_OVERLAP])
    ba, bb = rbounds(rng), rbounds(rng)
    need = rng.choice([0.0, 0.5, 2.0, 10.0])
    if t is T.MIN_DISTANCE:
        c = K.create_min_distance_constraint("m", "BASE", "ARM", need, ba, bb)
    elif t is T.Z_STACK_CLEARANCE:
        c = K.create_z_stack_clearance_constraint("z", "BASE", "ARM", ba, bb, need)
    else:
        c = K.create_no_overlap_constraint("n", "BASE", "ARM", ba, bb)
    ctx.ev("helper")
    for _ in range(2):
        A, B = pose(rng), pose(rng)
        a, b = boxw(A, ba), boxw(B, bb)
        gaps = [rng.choice([-1e9, -0.4, 0.3, 0.5 + 1e-3, 3.0, 12.0]) for _ in range(3)]
        for i in range(3):
            if gaps[i] > -1e8:
                if rng.random() < 0.5:
                    B[i][3] += (a[1][i] + gaps[i]) - b[0][i]
                else:
                    B[i][3] += (a[0][i] - gaps[i]) - b[1][i]
            else:
                B[i][3] += (a[0][i] + a[1][i]) / 2 - (b[0][i] + b[1][i]) / 2
        W = {"BASE": A, "ARM": B}
        ctx.case(("box", t.value, tuple(map(str, A)), tuple(map(str, B))))
        judge(ctx, c, W, c.evaluate({k: dress(rng, m) for k, m in W.items()}), "boxes with gaps %s" % gaps)


def g_helpers(ctx, rng):
    k = rng.randrange(6)
    fa, fb = rng.sample(NAMES, 2)
    world_ref = rng.random() < 0.4
    tol = rng.choice([0.1, 1.0, 30.0])
    face = lambda: rng.choice(list(FACES) + ["OUTPUT", "INPUT"])
    ba, bb = rbounds(rng), rbounds(rng)
    p = tuple(round(rng.uniform(-50, 50), 2) for _ in range(3))
    if k == 0:
        ax = rng.choice(list(AX))
        c = K.create_tangent_constraint("h", fa, p, ax, tol)
        w = KC("h", T.TANGENT, fa, axis_a=ax, reference_center=p, tolerance_deg=tol)
    elif k == 1:
        a1, a2 = rng.choice(list(AX)), rng.choice(list(AX))
        r = (0, 1, 0) if world_ref else None
        c = K.create_parallel_constraint("h", fa, None if world_ref else fb, a1, a2, r, tol)
        w = KC("h", T.PARALLEL, fa, None if world_ref else fb, axis_a=a1, axis_b=a2, reference_axis=r, tolerance_deg=tol)
    elif k == 2:
        c = K.create_coincident_constraint("h", fa, None if world_ref else fb, p if world_ref else None, tol)
        w = KC("h", T.COINCIDENT, fa, None if world_ref else fb, reference_center=p if world_ref else None, tolerance_mm=tol)
    elif k == 3:
        f1, f2, d = face(), face(), rng.choice([0.0, 10.0])
        c = K.create_face_distance_constraint("h", fa, f1, fb, f2, d, tol, ba, bb)
        w = KC("h", T.AT_DISTANCE, fa, fb, face_a=f1, face_b=f2, reference_radius=d, tolerance_mm=tol, bounds_a=ba, bounds_b=bb)
    elif k == 4:
        f1, f2 = face(), face()
        c = K.create_face_coincident_constraint("h", fa, f1, fb, f2, tol, ba, bb)
        w = KC("h", T.COINCIDENT, fa, fb, face_a=f1, face_b=f2, tolerance_mm=tol, bounds_a=ba, bounds_b=bb)
    else:
        c = K.create_min_distance_constraint("h", fa, fb, 20.0)
        w = KC("h", T.MIN_DISTANCE, fa, fb, reference_radius=20.0)
    ctx.ev("helper")
    W = world(rng, pose(rng) if rng.random() < 0.5 else None)
    if k in (3, 4) and rng.random() < 0.6:               # bring the faces together
        q1, q2 = facepos(fa, f1, ba, W), facepos(fb, f2, bb, W)
        if q1 and q2 and f2 in FACES:
            for i in range(3):
                W[fb][i][3] += q1[i] - q2[i]
    ctx.case(("help", k, fa, fb, tol, p, str(W[fa])))
    G = {n: dress(rng, m) for n, m in W.items()}
    res = c.evaluate(G)
    D = dict(desc(c, W), wanted=desc(w, W)["constraint"])
    ctx.check(bool(c.description), "KinematicConstraint", "helper made a constraint without description", D)
    for f in ("constraint_type", "frame_a", "frame_b", "face_a", "face_b", "axis_a", "axis_b", "reference_center", "reference_radius", "reference_axis", "tolerance_mm", "tolerance_deg", "bounds_a", "bounds_b", "severity", "name"):
        if (k in (0, 1) and f == "tolerance_mm") or (k not in (0, 1) and f == "tolerance_deg") or (k == 5 and f == "tolerance_mm"):
            continue
        ctx.check(getattr(c, f) == getattr(w, f), "KinematicConstraint", "helper set %s otherwise" % f, D)
    judge(ctx, w, W, res, "helper %d" % k)


def g_validator(ctx, rng):
    n = rng.randrange(0, 7)
    cons = [rcon(rng, i) for i in range(n)]
    W = world(rng, pose(rng))
    if rng.random() < 0.5:
        cons = [c for c in cons if ref(c, W) and ref(c, W)[1]]
    seen = []
    for i in range(rng.randrange(0, 3)):
        kind = rng.choice(["ok", "bad", "boom", "none"])
        sev = rng.choice(["error", "warning", "info"])

        def val(ts, kind=kind):
            seen.append(sorted(ts))
            if kind == "boom":
                raise ValueError("bang")
            return CR(satisfied=kind == "ok", error=0.0 if kind == "ok" else 2.0, error_message="custom " + kind)
        if rng.random() < 0.5 and kind != "ok":
            continue
        cons.append(KC("v%d" % i, T.CUSTOM, rng.choice(NAMES), validator=None if kind == "none" else val, severity=sev))
    rng.shuffle(cons)
    G = {k: dress(rng, m) for k, m in W.items()}
    v = AV("x")
    if rng.random() < 0.3:
        v.add_constraint(rcon(rng, 99))
        v.clear_constraints()
    how = rng.random()
    if how < 0.4:
        for c in cons:
            v.add_constraint(c)
    else:
        v.add_constraints(cons)
    rep = v.validate(G) if how < 0.8 else K.validate_assembly(cons, G)
    ctx.ev("validator")
    ctx.case(("val", tuple(c.name + c.constraint_type.value + c.severity for c in cons), str(W["BASE"])))
    verdict = {}
    for c in cons:
        r = rep.constraint_results.get(c.name)
        D = {"name": c.name, "report": str(rep)}
        ctx.check(r is not None, "AssemblyValidator", "no result for a constraint", D)
        if c.constraint_type is T.CUSTOM:
            ok = c.validator is not None and r.error_message == "custom ok"
            if c.validator is None:
                ctx.check("validator" in r.error_message, "AssemblyValidator", "custom constraint without validator does not say so", D)
            ctx.check(r.satisfied == ok, "AssemblyValidator", "custom verdict was changed", D)
            if c.validator is not None and not ok:
                ctx.check("bang" in r.error_message or r.error_message == "custom bad", "AssemblyValidator", "custom message lost", D)
        else:
            judge(ctx, c, W, r, "validator")
        verdict[c.name] = bool(r.satisfied)
    f = [c.name for c in cons if not verdict[c.name] and c.severity == "error"]
    w = [c for c in cons if not verdict[c.name] and c.severity == "warning"]
    inf = [c for c in cons if not verdict[c.name] and c.severity == "info"]
    D = {"verdicts": verdict, "severity": {c.name: c.severity for c in cons}, "report": rep.detailed_report()}
    ck = lambda b, m: ctx.check(b, "AssemblyValidator", m, D)
    ck(rep.failed_constraints == f and rep.failed_count == len(f), "failed constraints are not those of error severity")
    ck(rep.warning_count == len(w) and len(rep.warnings) == len(w) and all(x.startswith(c.name + ":") for x, c in zip(rep.warnings, w)), "warnings are not the failed ones of warning severity")
    ck(len(rep.info) == len(inf) and all(x.startswith(c.name + ":") for x, c in zip(rep.info, inf)), "info are not the failed ones of info severity")
    ck(rep.passed_count == sum(verdict.values()) and rep.total_constraints == len(cons), "counts differ from the results")
    ck(rep.is_valid == (not f), "is_valid differs from the failures")
    text = rep.detailed_report()
    ck(("STATUS: VALID" in text) == (not f) and ("STATUS: INVALID" in text) == bool(f), "report states another verdict")
    ck(all("  [%s]" % n in text for n in f), "report lacks a failed constraint")
    ck(all("[OK] %s" % n in text for n in verdict if verdict[n]) and not any("[OK] %s\n" % n in text for n in verdict if not verdict[n]), "report lists other constraints as passed")
    ck(all(x in text for x in rep.warnings), "report lacks a warning")
    ck(("ValidationReport: VALID" in str(rep)) == (not f), "str() states another verdict")
    v2 = AV()
    v2.add_constraints(cons)
    try:
        v2.validate_and_raise(G)
        raised = None
    except ValueError as e:
        raised = str(e)
    ck((raised is not None) == bool(f), "validate_and_raise raises exactly for failed errors")
    if raised:
        ctx.ev("raised")
        ck(all(n in raised for n in f), "the exception lacks a failed constraint")
    else:
        ctx.ev("valid")


# ---------------------------------------------------------------- meshes
class Body:
    """a body with an STL file, depth(p) > 0 inside by about that much and < 0 outside by at least that much, and its sample points"""

    def __init__(self, name, mesh, depth, bounds):
        self.name, self.depth = name, depth
        self.path = os.path.join(tmp, name + ".stl")
        mesh.export(self.path)
        self.verts = [list(map(float, p)) for p in mesh.vertices]
        self.bounds = bounds
        self.faces = len(mesh.faces)
        self.radius = max(nrm(p) for p in self.verts)


def bodies():
    import trimesh
    out = []
    for n, e in (("cube", (10, 10, 10)), ("plate", (40, 30, 3)), ("bar", (60, 4, 5)), ("long", (8, 8, 80))):
        out.append(Body(n, trimesh.creation.box(extents=e), lambda p, e=e: min(e[i] / 2 - abs(p[i]) for i in range(3)), (tuple(-x / 2 for x in e), tuple(x / 2 for x in e))))
    fine = trimesh.creation.box(extents=(20, 20, 12)).subdivide().subdivide().subdivide().subdivide()
    out.append(Body("fine", fine, lambda p: min(10 - abs(p[0]), 10 - abs(p[1]), 6 - abs(p[2])), ((-10, -10, -6), (10, 10, 6))))
    for n, r, s in (("ball", 8.0, 2), ("globe", 15.0, 3)):
        inr = r * (0.93 if s == 2 else 0.98)

        def depth(p, r=r, inr=inr):
            d = nrm(p)
            return inr - d if d < inr else (r - d if d > r else 0.0)
        out.append(Body(n, trimesh.creation.icosphere(subdivisions=s, radius=r), depth, ((-r,) * 3, (r,) * 3)))

    def tube(ri, ro, h, secs):
        k = math.cos(math.pi / secs)

        def depth(p):
            d = math.hypot(p[0], p[1])
            out_ = max(d - ro, ri * k - d, abs(p[2]) - h / 2)
            in_ = min(ro * k - d, d - ri, h / 2 - abs(p[2]))
            return in_ if in_ > 0 else (-out_ if out_ > 0 else 0.0)
        return depth
    for n, ri, ro, h, secs in (("tube", 10.0, 15.0, 20.0, 32), ("ring", 12.0, 20.0, 6.0, 300)):
        out.append(Body(n, trimesh.creation.annulus(r_min=ri, r_max=ro, height=h, sections=secs), tube(ri, ro, h, secs), ((-ro, -ro, -h / 2), (ro, ro, h / 2))))
    out.append(Body("shaft", trimesh.creation.cylinder(radius=6.0, height=50.0, sections=32), tube(-1.0, 6.0, 50.0, 32), ((-6, -6, -25), (6, 6, 25))))
    return out


def inv(M):
    R = [[M[j][i] for j in range(3)] for i in range(3)]
    t = [-dot(R[i], org(M)) for i in range(3)]
    return [R[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1.0]]


def truth(a, A, b, B):
    """'apart' when no common point can exist, 'hit' when the promised points overlap, else None"""
    IA, IB = inv(A), inv(B)
    va, vb = [mul(A, p) for p in a.verts], [mul(B, p) for p in b.verts]
    hit = any(b.depth(mul(IB, p)) > 0.02 for p in va) or any(a.depth(mul(IA, p)) > 0.02 for p in vb)
    la, ha = [min(p[i] for p in va) for i in range(3)], [max(p[i] for p in va) for i in range(3)]
    lb, hb = [min(p[i] for p in vb) for i in range(3)], [max(p[i] for p in vb) for i in range(3)]
    lo, hi = [max(la[i], lb[i]) for i in range(3)], [min(ha[i], hb[i]) for i in range(3)]
    if all(h - l > 0.05 for l, h in zip(lo, hi)):
        m = [(x + y) / 2 for x, y in zip(lo, hi)]
        if a.depth(mul(IA, m)) > 0.02 and b.depth(mul(IB, m)) > 0.02:
            hit = True
    if hit:
        return "hit"
    if any(l - h > 1e-4 for l, h in zip(lo, hi)):
        return "apart"
    # separating direction for convex pairs
    if a.name not in ("tube", "ring") and b.name not in ("tube", "ring"):
        dirs = [turn(A, AX[k]) for k in "xyz"] + [turn(B, AX[k]) for k in "xyz"]
        dirs += [cross(x, y) for x in dirs[:3] for y in dirs[3:]] + [sub(org(A), org(B))]
        for d in dirs:
            if nrm(d) < 1e-3:
                continue
            d = unit(d)
            pa, pb = [dot(d, p) for p in va], [dot(d, p) for p in vb]
            if min(pa) > max(pb) + 1e-3 or min(pb) > max(pa) + 1e-3:
                return "apart"
    return None


def collide(ctx, a, A, b, B, want, where, ck="check_mesh_collision"):
    D = {"a": a.name, "b": b.name, "A": A, "B": B, "want": want, "where": where}
    r = K.check_mesh_collision(a.path, np.array(A), b.path, np.array(B))
    D["got"] = str(r)
    ctx.ev("mesh")
    ctx.check(not r.error_message, ck, "collision check of valid meshes gave an error", D)
    ctx.check(r.penetration_depth >= 0, ck, "negative penetration", D)
    if want == "apart":
        ctx.ev("mesh:apart")
        ctx.check(not r.collides, ck, "bodies that are apart are reported as colliding", D)
    elif want == "hit":
        ctx.ev("mesh:hit")
        ctx.check(r.collides, ck, "bodies that overlap are reported as free", D)
    if r.collides:
        ctx.check(len(r.contact_points) > 0, ck, "collision without contact points", D)
        IA, IB = inv(A), inv(B)
        for p in r.contact_points:
            ctx.check(len(p) == 3 and a.depth(mul(IA, p)) > -0.02 and b.depth(mul(IB, p)) > -0.02, ck, "a contact point lies outside one of the bodies", D)
    if a.faces > 1000 or b.faces > 1000:
        ctx.ev("mesh:many")
    return r


def g_mesh(ctx, rng):
    a, b = rng.choice(BODIES), rng.choice(BODIES)
    A = pose(rng, 20)
    B = pose(rng, 20)
    d = unit([rng.gauss(0, 1) for _ in range(3)])
    k = rng.uniform(0.1, 0.9) * (a.radius + b.radius) * rng.choice([0.4, 0.7, 1.0])
    for i in range(3):
        B[i][3] = A[i][3] + k * d[i]
    want = truth(a, A, b, B)
    ctx.case(("mesh", a.name, b.name, str(A), str(B)))
    r = collide(ctx, a, A, b, B, want, "random")
    if want and rng.random() < 0.35:
        r2 = K.check_mesh_collision(a.path, Obj(np.array(A)), b.path, [x for row in B for x in row])
        ctx.check(r2.collides == r.collides and not r2.error_message, "check_mesh_collision", "the answer depends on how the transform is given or changes from call to call", {"a": a.name, "b": b.name, "A": A, "B": B})
        c = K.create_mesh_collision_constraint("m", "P", "Q", a.path, b.path) if rng.random() < 0.5 else K.create_no_overlap_constraint("m", "P", "Q", a.bounds, b.bounds, a.path, b.path)
        res = c.evaluate({"P": np.array(A), "Q": Obj(np.array(B))})
        ctx.ev("mesh:constraint")
        ctx.check(res.satisfied == (want == "apart"), "KinematicConstraint", "no-overlap by mesh differs from the bodies", {"a": a.name, "b": b.name, "A": A, "B": B, "want": want, "got": res.error_message})


def g_fits(ctx, rng):
    """shafts in bores, parts on top of one another, crossing bars"""
    by = {b.name: b for b in BODIES}
    base = pose(rng, 20)

    def at(M, p, R=None):
        L = [(R or rot([0, 0, 1], 0))[i] + [p[i]] for i in range(3)]
        return [[sum(M[i][k] * L[k][j] for k in range(3)) for j in range(3)] + [sum(M[i][k] * p[k] for k in range(3)) + M[i][3]] for i in range(3)] + [[0, 0, 0, 1.0]]
    k = rng.randrange(4)
    if k == 0:
        a, b = by[rng.choice(["tube", "ring"])], by[rng.choice(["shaft", "ball", "cube", "long"])]
        room = (10.0 if a.name == "tube" else 12.0) * 0.99
        half = {"shaft": 6.0, "ball": 8.0, "cube": 5 * 2 ** .5, "long": 4 * 2 ** .5}[b.name]
        s = room - half - 0.1
        an = rng.uniform(0, 2 * math.pi)
        off = rng.uniform(0, s)
        B = at(base, [off * math.cos(an), off * math.sin(an), rng.uniform(-3, 3)], rot([0, 0, 1], rng.uniform(0, 360)))
        want = "apart"
        ctx.ev("mesh:nested")
    elif k == 1:
        a, b = by[rng.choice(["cube", "plate", "fine", "bar"])], by[rng.choice(["cube", "plate", "fine", "long"])]
        if rng.random() < 0.5:
            base = [[1.0, 0, 0, base[0][3]], [0, 1.0, 0, base[1][3]], [0, 0, 1.0, base[2][3]], [0, 0, 0, 1.0]]
        i = rng.randrange(3)
        p = [rng.choice([0.0, 1.0, 2.5]) for _ in range(3)]
        p[i] = (a.bounds[1][i] + b.bounds[1][i]) * rng.choice([-1, 1])
        B = at(base, p)
        want = "apart"
        ctx.ev("mesh:touch")
    elif k == 2:
        a, b = by["bar"], by[rng.choice(["bar", "plate", "long"])]
        R = rot([0, 1, 0], 90) if b.name != "long" else None
        B = at(base, [rng.uniform(-10, 10), rng.uniform(-0.8, 0.8), rng.uniform(-5, 5)], R)
        want = truth(a, base, b, B)
    else:
        a = b = rng.choice(BODIES)
        B = [list(r) for r in base]
        want = "hit" if a.name not in ("tube", "ring") else None
    ctx.case(("fit", k, a.name, b.name, str(base), str(B)))
    if rng.random() < 0.5:
        collide(ctx, a, base, b, B, want, "fit %d" % k)
    else:
        collide(ctx, b, B, a, base, want, "fit %d swapped" % k)


def g_errors(ctx, rng):
    good = rng.choice(BODIES).path
    k = rng.randrange(4)
    bad = os.path.join(tmp, "no-such-%d.stl" % rng.randrange(10))
    if k == 0:
        args = [good, np.eye(4), bad, np.eye(4)]
    elif k == 1:
        args = [bad, None, good, np.eye(4)]
    else:
        m = rng.choice([np.eye(3), [1, 2, 3], "nonsense", [[1, 2], [3, 4]]])
        args = [good, np.eye(4), good, m] if k == 2 else [good, m, good, np.eye(4)]
    r = K.check_mesh_collision(*args)
    ctx.ev("mesh:error")
    ctx.case(("err", k, str(args[1]), str(args[3]), os.path.basename(args[0]), os.path.basename(args[2])))
    ctx.check(bool(r.error_message) and not r.collides and "[ERROR]" in str(r), "check_mesh_collision", "unusable input is not reported as an error", {"k": k, "got": str(r)})
    if k < 2:
        c = K.create_mesh_collision_constraint("m", "P", "Q", args[0], args[2])
        res = c.evaluate({"P": np.eye(4), "Q": np.eye(4)})
        ctx.check(not res.satisfied and "fail" in res.error_message.lower(), "KinematicConstraint", "no-overlap passed on meshes that cannot be read", {"got": res.error_message})


GROUPS = {
    "constraints": (g_constraints, 2600, 20000),
    "boxes": (g_boxes, 700, 6000),
    "helpers": (g_helpers, 700, 5000),
    "validator": (g_validator, 500, 4000),
    "mesh": (g_mesh, 240, 1200),
    "fits": (g_fits, 110, 600),
    "errors": (g_errors, 40, 150),
}

if __name__ == "__main__":
    vf.main(globals())
