import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math
import numpy as np
import vf

PROP = "C10"
LEVEL = "exploration"
META = dict(
    title="3D booleans and containment decide the right set of points",
    statement="With the trimesh engine, solid_boolean of two closed solids is a closed, outward-oriented solid that contains exactly the points of the union, intersection or difference (empty where the set is empty), with volume obeying inclusion-exclusion. With the native engine this holds exactly for disjoint and for nested operands, and for overlapping boxes intersection and difference decide at least 85% of sampled points rightly and every result vertex lies on an operand's surface (exact native results for overlapping solids are not claimed: see the known findings). Operands are never modified. solid_contains_point is true exactly for points inside a closed solid or on its surface, also for moved, rotated, scaled, hollow and previously queried or combined solids; solids_intersect is true exactly when the solids share interior points. Engine choice follows the engine argument, then YAPCAD_BOOLEAN_ENGINE, then YAPCAD_MESH_BOOLEAN_ENGINE, then native; unknown engines, backends and operations are refused.",
    over=["inputs", "histories"], q="for all closed solids, relative placements and operations in the claimed classes",
    why="Tests compare a few volumes of axis-aligned examples; a wrong inside/outside decision or stale index shows only for particular placements and histories.",
    files=["src/yapcad/boolean/native.py", "src/yapcad/boolean/trimesh_engine.py", "src/yapcad/geom3d.py"],
    mech=[("solid_contains_point, solids_intersect, native solid_boolean, surface_octree", "src/yapcad/boolean/native.py"), ("trimesh engine", "src/yapcad/boolean/trimesh_engine.py"), ("engine dispatch", "src/yapcad/geom3d.py")],
    technique="online monitor: a generalised winding-number oracle (independent numpy) decides membership of sampled points before and after; conservation monitor on volumes; call recorder on the dispatch",
    note="Exploration. Points closer than 1e-3 (containment), 0.02 (native boxes 0.05) to a surface are not judged; near-coplanar contacts are avoided by random placement. OCC engine unavailable here.",
)
RULE = "random prisms, spheres, cones, tubes, extrusions, spherical shells; random placement, rotation, scale and query history; distinct by operands and operation"
REQUIRE = {"booleans": 120, "native_booleans": 60, "memberships": 6000, "contains": 3000, "intersect_tests": 60, "dispatch": 100, "refusals": 60}
CASE_LIMIT = 240


def init():
    global g, g3, u, nat, te, M
    from yapcad import geom as g, geom3d as g3, geom3d_util as u
    from yapcad.boolean import native as nat, trimesh_engine as te
    import mesh3 as M


def rs(rng, kinds=(0, 1, 2, 3, 4), spread=1.5, size=1.0, rot=True):
    k = rng.choice(kinds)
    p = g.point(*[rng.uniform(-spread, spread) for _ in range(3)])
    R = lambda a, b: rng.uniform(a, b) * size
    if k == 0:
        s = u.prism(R(1, 4), R(1, 4), R(1, 4), p)
    elif k == 1:
        s = u.sphere(R(1.5, 4), p, depth=1)
    elif k == 2:
        s = u.conic(R(.6, 2), rng.choice([0, R(.5, 1.5)]), R(1, 4), p, angr=rng.choice([20, 30]))
    elif k == 3:
        o = R(3, 5)
        s = u.tube(o, o * rng.uniform(.1, .3), R(1, 4), base_point=p, minang=20)
    else:
        L = [(0, 0), (4, 0), (4, 3), (2, 1.2), (0, 4)]
        s = u.extrude(g3.poly2surface([g.point(x * size * .8, y * size * .8) for x, y in L + L[:1]])[0], R(1, 3))
        s = g3.translatesolid(s, p)
    if rot and rng.random() < .6:
        s = g3.rotatesolid(s, rng.uniform(0, 360), axis=g.point(*[rng.gauss(0, 1) for _ in range(3)]))
    return s


def canon(s):
    return repr([[x[1], x[3]] for x in s[1]])


def opw(op, a, b):
    return {"union": a | b, "intersection": a & b, "difference": a & ~b}[op]


def judge(ctx, rng, tag, a, b, op, r, margin, n=60, closed=True, allow=0.0):
    A, B, T = M.tris(a), M.tris(b), M.tris(r)
    P = np.concatenate([A, B]).reshape(-1, 3)
    lo, hi = P.min(0), P.max(0)
    Q = np.array([[rng.uniform(lo[j] - .2, hi[j] + .2) for j in range(3)] for _ in range(n)])
    # half the points near the operands' surfaces, where decisions are made
    V = P[[rng.randrange(len(P)) for _ in range(n // 2)]]
    C = [A.reshape(-1, 3).mean(0), B.reshape(-1, 3).mean(0)]
    for i in range(n // 2):
        t = rng.choice([rng.uniform(-.3, .3), rng.random()])
        Q[i] = V[i] + (C[rng.randrange(2)] - V[i]) * t
    wa, wb = M.winding(A, Q) > .5, M.winding(B, Q) > .5
    want = opw(op, wa, wb)
    far = np.minimum(M.dist_to(A, Q), M.dist_to(B, Q)) > margin
    got = (M.winding(T, Q) > .5) if len(T) else np.zeros(n, bool)
    ctx.ev("memberships", int(far.sum()))
    bad = np.where((got != want) & far)[0]
    ctx.check(len(bad) <= allow * n, f"{tag}:{op}:membership", lambda: f"{op}: {len(bad)} of {int(far.sum())} points wrong, first {Q[bad[0]].tolist()} in={bool(got[bad[0]])} expected {bool(want[bad[0]])}", [canon(a), canon(b)] if len(bad) else None)
    if closed and len(T):
        # every flux through the result must cancel: no gap, however triangulated
        av = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]) / 2
        gap = max(np.abs(av.sum(0)).max(), np.abs(np.einsum("ij,ik->jk", av, T.mean(1)) - np.eye(3) * M.volume(T)).max())
        ctx.check(gap < 1e-5 * (1 + M.area(T)), f"{tag}:{op}:open", lambda: f"{op} result is not a closed surface: flux imbalance {gap}", None)
        ctx.check(M.volume(T) > -1e-9, f"{tag}:{op}:orientation", lambda: f"{op} result has negative volume {M.volume(T)}")
        ctx.check(g3.issolid(r, fast=False), f"{tag}:{op}:valid", "result is not a valid solid")
    return A, B, T


def trimesh(ctx, rng):
    a, b = rs(rng), rs(rng)
    ca, cb = canon(a), canon(b)
    eng = rng.choice(["trimesh", "trimesh:manifold"])
    vol = {}
    for op in ("union", "intersection", "difference"):
        r = g3.solid_boolean(a, b, op, engine=eng)
        ctx.ev("booleans")
        A, B, T = judge(ctx, rng, "trimesh", a, b, op, r, 1e-3)
        vol[op] = M.volume(T) if len(T) else 0.0
        if rng.random() < .3 and len(T):
            contain(ctx, rng, r, 12, "combined")
    ctx.case([eng, ca[:200], cb[:200]])
    va, vb = M.volume(A), M.volume(B)
    e = 1e-5 * (va + vb + 1)
    ctx.check(abs(vol["union"] + vol["intersection"] - va - vb) < e and abs(vol["difference"] + vol["intersection"] - va) < e, "trimesh:volume", lambda: f"volumes a={va} b={vb} {vol} break inclusion-exclusion", None)
    ctx.check(canon(a) == ca and canon(b) == cb, "trimesh:mutates", "operand modified")


def native_apart(ctx, rng):
    a = rs(rng, kinds=(0, 1, 2), spread=0, rot=rng.random() < .5)
    A = M.tris(a)
    lo, hi = A.reshape(-1, 3).min(0), A.reshape(-1, 3).max(0)
    b = rs(rng, kinds=(0, 1, 2, 3), spread=0)
    nested = rng.random() < .5
    if nested:
        c = (lo + hi) / 2
        B = M.tris(b)
        sc = .3 * (hi - lo).min() / np.ptp(B.reshape(-1, 3), axis=0).max()
        b = g3.scalesolid(b, float(sc) * .6)
        B = M.tris(b)
        c2 = B.reshape(-1, 3).mean(0)
        d = c - c2
        b = g3.translatesolid(b, g.point(*d))
        B = M.tris(b)
        if not (M.winding(A, B.reshape(-1, 3)) > .5).all() or M.dist_to(A, B.reshape(-1, 3)).min() < .02:
            return
    else:
        B = M.tris(b)
        k = rng.randrange(3)
        d = [rng.uniform(-1, 1) for _ in range(3)]
        d[k] = float(hi[k] - B.reshape(-1, 3).min(0)[k]) + rng.uniform(.05, 2)
        b = g3.translatesolid(b, g.point(*d))
    if rng.random() < .5:
        a, b = b, a
    if rng.random() < .4:
        nat.solid_contains_point(a, g.point(0, 0, 0))
        nat.solids_intersect(a, b)
    ca, cb = canon(a), canon(b)
    op = rng.choice(["union", "intersection", "difference"])
    r = g3.solid_boolean(a, b, op, engine="native")
    ctx.ev("native_booleans")
    ctx.case([op, nested, ca[:200], cb[:200]])
    A, B, T = judge(ctx, rng, "native", a, b, op, r, 1e-3, closed=True)
    x = g3.solid_boolean(a, b, op, engine="trimesh")
    X = M.tris(x)
    v, w = (M.volume(T) if len(T) else 0), (M.volume(X) if len(X) else 0)
    ctx.check(abs(v - w) < 1e-5 * (1 + abs(w)), f"native:{op}:volume", lambda: f"native {op} ({'nested' if nested else 'disjoint'}) volume {v}, expected {w}", None)
    ctx.check(canon(a) == ca and canon(b) == cb, "native:mutates", "operand modified")
    I = nat.solids_intersect(a, b)
    ctx.ev("intersect_tests")
    ctx.check(bool(I) == nested, "intersect", lambda: f"solids_intersect is {I} for {'nested' if nested else 'disjoint'} solids", None)


def native_box(ctx, rng):
    rot = rng.random() < .5
    a, b = rs(rng, kinds=(0,), rot=rot), rs(rng, kinds=(0,), rot=rot)
    op = rng.choice(["intersection", "difference"])
    ca, cb = canon(a), canon(b)
    hist = rng.random()
    if hist < .3:
        nat.solids_intersect(b, a)
    elif hist < .5:
        d = g.point(3, -2, 1)
        a = g3.translatesolid(a, d)
        nat.solid_contains_point(a, d)
        a = g3.translatesolid(a, g.point(-3, 2, -1))
        ca = canon(a)
    r = g3.solid_boolean(a, b, op, engine="native")
    ctx.ev("native_booleans")
    ctx.case([op, ca[:200], cb[:200]])
    A, B, T = judge(ctx, rng, "nativebox", a, b, op, r, .05, closed=False, allow=.15)
    ctx.ev("native_overlap_points", 60)
    if len(T):
        V = T.reshape(-1, 3)
        off = np.minimum(M.dist_to(A, V), M.dist_to(B, V)).max()
        ctx.check(off < 1e-3, f"nativebox:{op}:vertex", lambda: f"{op}: a result vertex is {off} from both operands' surfaces", None)
    ctx.check(canon(a) == ca and canon(b) == cb, "nativebox:mutates", "operand modified")
    ctx.ev("intersect_tests")
    X = M.tris(g3.solid_boolean(a, b, "intersection", engine="trimesh"))
    v = M.volume(X) if len(X) else 0
    if v == 0 or v > 1e-4:
        I = nat.solids_intersect(a, b)
        ctx.check(bool(I) == (v > 0), "intersect", lambda: f"solids_intersect is {I}, common volume {v}", None)


def contain(ctx, rng, s, n=20, tag="fresh"):
    T = M.tris(s)
    lo, hi = T.reshape(-1, 3).min(0), T.reshape(-1, 3).max(0)
    Q = [[rng.uniform(lo[j] - .3, hi[j] + .3) for j in range(3)] for _ in range(n)]
    V = T.reshape(-1, 3)
    c = V.mean(0)
    for i in range(n // 3):
        v = V[rng.randrange(len(V))]
        Q[i] = list(map(float, v + (c - v) * rng.choice([rng.uniform(-.2, .2), rng.random()])))
    if rng.random() < .5:       # axis-aligned with vertices: rays hit edges and corners
        for i in range(n // 3, n // 2):
            v = V[rng.randrange(len(V))]
            k = rng.randrange(3)
            Q[i] = [float(v[j]) if j != k else Q[i][j] for j in range(3)]
    W, D = M.winding(T, np.array(Q)), M.dist_to(T, np.array(Q))
    for q, w, d in zip(Q, W, D):
        if d < 1e-3:
            continue
        ctx.ev("contains")
        r = nat.solid_contains_point(s, g.point(*q))
        ctx.check(bool(r) == (w > .5), f"contains:{tag}", lambda: f"solid_contains_point({q}) = {r}, winding number {w:.3f}, distance to surface {d}", canon(s)[:3000] if r is not None and bool(r) != (w > .5) else None)


def contains(ctx, rng):
    if rng.random() < .12:
        s = u.spherical_shell(rng.uniform(4, 6), rng.uniform(.3, 1), steps=4) if hasattr(u, "spherical_shell") else rs(rng)
        if not g3.issolid(s):
            s = rs(rng)
    else:
        s = rs(rng, spread=3)
    T = M.tris(s)
    if len(T) > 160 or M.defects(T):
        return
    ctx.case(canon(s)[:400])
    contain(ctx, rng, s, 16, "fresh")
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(4)
        if k == 0:
            s = g3.translatesolid(s, g.point(*[rng.uniform(-1.5, 1.5) for _ in range(3)]))
        elif k == 1:
            s = g3.rotatesolid(s, rng.uniform(0, 360), axis=g.point(*[rng.gauss(0, 1) for _ in range(3)]))
        elif k == 2:
            s = g3.scalesolid(s, rng.uniform(.5, 2))
        else:
            s = g3.mirrorsolid(s, rng.choice(["xy", "yz", "xz"]))
        contain(ctx, rng, s, 12, ["moved", "rotated", "scaled", "mirrored"][k])
    # a point exactly on a face is contained
    T = M.tris(s)
    t = T[rng.randrange(len(T))]
    w = np.array([rng.uniform(.1, 1) for _ in range(3)])
    q = (t * (w / w.sum())[:, None]).sum(0)
    ctx.check(bool(nat.solid_contains_point(s, g.point(*q))), "contains:surface", lambda: f"point {q} on a face is not contained")


def intersect(ctx, rng):
    a = rs(rng, spread=2.5, size=rng.choice([.3, 1, 1]), kinds=(0, 1, 2, 3))
    b = rs(rng, spread=2.5, size=rng.choice([.3, 1, 1]), kinds=(0, 1, 2, 3))
    if rng.random() < .35:      # hollow around / inside hollow
        o = rng.uniform(4, 6)
        a = u.tube(o, rng.uniform(.4, .8), 4, base_point=g.point(0, 0, -2), minang=30)
        i = o / 2 - rng.uniform(.1, 1.2)
        b = rng.choice([lambda: u.sphere(i, depth=1), lambda: u.tube(o - .3, rng.uniform(.1, .3), 3, base_point=g.point(0, 0, -1.5), minang=30), lambda: u.prism(.5, .5, 1)])()
        if rng.random() < .5:
            a, b = b, a
    X = M.tris(g3.solid_boolean(a, b, "intersection", engine="trimesh"))
    v = M.volume(X) if len(X) else 0
    if 0 < v < 1e-5:
        return
    if v == 0:
        A, B = M.tris(a), M.tris(b)
        if min(M.dist_to(A, B.reshape(-1, 3)).min(), M.dist_to(B, A.reshape(-1, 3)).min()) < 1e-3:
            return
    ctx.ev("intersect_tests")
    ctx.case([canon(a)[:200], canon(b)[:200]])
    r, r2 = nat.solids_intersect(a, b), nat.solids_intersect(b, a)
    ctx.check(bool(r) == bool(r2) == (v > 0), "intersect", lambda: f"solids_intersect {r}/{r2}, common volume {v}", None)


def dispatch(ctx, rng):
    calls = []
    a, b = u.prism(1, 1, 1), u.prism(1, 1, 1, g.point(.5, .3, .2))
    saved = nat.solid_boolean, te.solid_boolean
    env = {}
    opts = [None, "native", "trimesh", "trimesh:manifold", "bogus"]
    arg, e1, e2 = rng.choice(opts), rng.choice(opts), rng.choice([None, "native", "trimesh"])
    be = rng.choice([None, None, "manifold"])
    for k, v in (("YAPCAD_BOOLEAN_ENGINE", e1), ("YAPCAD_MESH_BOOLEAN_ENGINE", e2), ("YAPCAD_TRIMESH_BACKEND", be)):
        os.environ.pop(k, None)
        if v:
            os.environ[k] = v
    try:
        nat.solid_boolean = lambda x, y, op, tol=0, stitch=False: calls.append(("native", None, x is a, y is b, op)) or ["solid", [], [], []]
        te.solid_boolean = lambda x, y, op, tol=0, stitch=False, backend=None: calls.append(("trimesh", backend, x is a, y is b, op)) or ["solid", [], [], []]
        op = rng.choice(["union", "intersection", "difference"])
        kw = {} if arg is None else {"engine": arg}
        try:
            g3.solid_boolean(a, b, op, **kw)
            err = None
        except ValueError as e:
            err = e
    finally:
        nat.solid_boolean, te.solid_boolean = saved
        for k in ("YAPCAD_BOOLEAN_ENGINE", "YAPCAD_MESH_BOOLEAN_ENGINE", "YAPCAD_TRIMESH_BACKEND"):
            os.environ.pop(k, None)
    sel = arg or e1 or e2 or "native"
    name, _, bk = sel.partition(":")
    ctx.ev("dispatch")
    ctx.case([arg, e1, e2, be, op])
    if name == "bogus":
        ctx.ev("refusals")
        ctx.check(err is not None and not calls, "dispatch:unknown", lambda: f"unknown engine accepted: {calls}")
    else:
        want = [(name, (bk or be) if name == "trimesh" else None, True, True, op)]
        ctx.check(err is None and calls == want, "dispatch", lambda: f"engine={arg} BOOLEAN={e1} MESH={e2} BACKEND={be}: called {calls} ({err}), expected {want}")
    for bad in (lambda: g3.solid_boolean(a, b, rng.choice(["xor", "", "minus"]), engine=rng.choice(["native", "trimesh"])),
                lambda: g3.solid_boolean(a, b, "union", engine="trimesh:nosuch"),
                lambda: nat.solid_contains_point(["solid"], g.point(0, 0)), lambda: nat.solid_contains_point(a, 3),
                lambda: nat.solids_intersect(a, [1, 2])):
        ctx.ev("refusals")
        try:
            bad()
            ctx.viol("refuse", "bad engine, backend, operation or operand accepted")
        except (ValueError, RuntimeError, TypeError):
            pass


def findings(ctx, rng):
    """fixed inputs that fail today: listed in known/findings.json"""
    import random
    for i, seed in enumerate(KNOWN_UNION):
        r = random.Random(seed)
        a, b = rs(r, kinds=(0,), rot=True), rs(r, kinds=(0,), rot=True)
        q = judge_silent(r, a, b, "union")
        ctx.check(not q, f"known:native-union-{seed}", f"native union of two rotated boxes (generator seed {seed}) decides {q} sample points wrongly")
    r = random.Random(1)
    a, b = u.prism(2, 2, 2), u.prism(2, 2, 2, g.point(.7, .6, .5))
    d = M.defects(M.tris(g3.solid_boolean(a, b, "intersection", engine="native")))
    ctx.check(not d, "known:native-open-1", "native intersection of two shifted cubes is not a closed surface")


KNOWN_UNION = (9, 24)


def judge_silent(rng, a, b, op):
    A, B = M.tris(a), M.tris(b)
    T = M.tris(g3.solid_boolean(a, b, op, engine="native"))
    P = np.concatenate([A, B]).reshape(-1, 3)
    Q = np.array([[rng.uniform(P[:, j].min() - .2, P[:, j].max() + .2) for j in range(3)] for _ in range(200)])
    w = opw(op, M.winding(A, Q) > .5, M.winding(B, Q) > .5)
    far = np.minimum(M.dist_to(A, Q), M.dist_to(B, Q)) > .05
    return int((((M.winding(T, Q) > .5) != w) & far).sum())


GROUPS = {"trimesh": (trimesh, 60, 500), "apart": (native_apart, 60, 500), "box": (native_box, 45, 500), "contains": (contains, 110, 900), "intersect": (intersect, 70, 600), "dispatch": (dispatch, 150), "findings": (findings, 1, 1)}

if __name__ == "__main__":
    vf.main(globals())
