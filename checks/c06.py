import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import vf
from gen2d import *

PROP = "C06"
LEVEL = "exploration"
META = dict(
    title="Polygon tessellation: triangulation, outlines with holes, patterns",
    statement="Triangulating a simple polygon with disjoint holes, in the XY plane or any other plane, with either orientation and any starting vertex, covers exactly the polygon minus its holes: triangles use only input vertices, do not overlap, have the polygon's area and its winding, and surface normals are unit plane normals on the side of that winding. Converting a geometry list of closed outlines (polygons, circles, line/arc chains in any segment order or direction) to polygons yields every outline once, counter-clockwise for outer loops and clockwise for holes, nested by containment and within the chord tolerance of the true outline. Radial and linear patterns place exactly the requested copies at exactly the requested angles or offsets.",
    over=["inputs"], q="for all simple polygons with holes, planes, nestings and segment orders",
    why="Tests triangulate a few squares with one hole; concave corners, collinear vertices, far-from-origin coordinates, tilted planes, shuffled segments and deep nesting are a product space only an oracle can judge.",
    files=["src/yapcad/triangulator.py", "src/yapcad/geom3d.py", "src/yapcad/geom_util.py"],
    mech=[("triangulate_polygon", "src/yapcad/triangulator.py"), ("poly2surface/poly2surfaceXY", "src/yapcad/geom3d.py"), ("geomlist2poly_components, radial_pattern, linear_pattern", "src/yapcad/geom_util.py")],
    technique="reference-model monitor: exact area, disjointness and point-membership oracle on every produced triangulation; containment-tree oracle on produced loops",
    note="Exploration; areas compared at 1e-6 relative (float32 triangulator indices are checked by geometry, not trusted), membership at 30 random points per case.",
)
RULE = "random simple polygons (convex, star, comb, grid-aligned with collinear vertices) with 0-4 holes, random plane/offset/start vertex/orientation; nested outline sets to depth 4 with shuffled and reversed segments; distinct by geometry"
REQUIRE = {"triangulations": 500, "holes": 300, "tri_membership": 8000, "planes": 150, "outline_sets": 300, "loops": 600, "patterns": 200}


def init():
    global geom, geom3d, geom_util, tri
    from yapcad import geom, geom3d, geom_util
    from yapcad import triangulator as tri


def comb(rng, c, s):
    n = rng.randint(2, 6)
    w = s / n
    pts = [(-s / 2, -s / 2), (s / 2, -s / 2)]
    for i in range(n):
        x = s / 2 - i * w
        pts += [(x, s / 2), (x - w * .5, s / 2), (x - w * .5, -s / 2 + s * .2), (x - w, -s / 2 + s * .2)]
    pts = pts[:-1]
    pts[-1] = (-s / 2, pts[-1][1])
    return [P(c[0] + x, c[1] + y) for x, y in pts]


def grid(rng, c, s):
    """axis-aligned rectangle with many collinear boundary vertices"""
    nx, ny = rng.randint(1, 4), rng.randint(1, 4)
    a = [(-1 + 2 * i / nx, -1) for i in range(nx)] + [(1, -1 + 2 * i / ny) for i in range(ny)] + [(1 - 2 * i / nx, 1) for i in range(nx)] + [(-1, 1 - 2 * i / ny) for i in range(ny)]
    return [P(c[0] + x * s, c[1] + y * s) for x, y in a]


def ring(rng, c, s):
    k = rng.random()
    if k < .35:
        v = rstar(rng, c=c, s=s, cw=False, n=rng.randint(3, 12))
        v = v[:-1] if d2(v[0], v[-1]) < 1e-9 else v
    elif k < .55:
        v = comb(rng, c, s)
    elif k < .75:
        v = grid(rng, c, s)
    else:
        n = rng.randint(3, 9)
        a0 = rng.uniform(0, TAU)
        v = [P(c[0] + s * math.cos(a0 + i * TAU / n), c[1] + s * math.sin(a0 + i * TAU / n)) for i in range(n)]
    j = rng.randrange(len(v))
    return v[j:] + v[:j]


def cl(v):
    return v + [list(v[0])]


def sep(a, b):
    """minimal distance between two closed vertex loops (by vertices against edges; loops known not to cross)"""
    return min(min(fdist(cl(b), p) for p in a), min(fdist(cl(a), p) for p in b))


def crossing(a, b):
    for p in pieces(cl(a)):
        for q in pieces(cl(b)):
            if segx(p[1], p[2], q[1], q[2]):
                return True
    return False


def segx(a, b, c, d):
    def o(p, q, r):
        return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    return o(a, b, c) * o(a, b, d) <= 0 and o(c, d, a) * o(c, d, b) <= 0


def with_holes(rng, c, s, nh):
    outer = ring(rng, c, s)
    holes = []
    for _ in range(nh * 6):
        if len(holes) == nh:
            break
        q = P(c[0] + rng.uniform(-s, s), c[1] + rng.uniform(-s, s))
        h = ring(rng, q, s * rng.uniform(0.03, 0.25))
        if not winding_inside(cl(outer), h[0]) or crossing(outer, h) or sep(outer, h) < 0.01 * s:
            continue
        if any(crossing(h, g) or sep(h, g) < 0.01 * s or winding_inside(cl(g), h[0]) or winding_inside(cl(h), g[0]) for g in holes):
            continue
        holes.append(h)
    return outer, holes


def tarea(t):
    return 0.5 * ((t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[2][0] - t[0][0]) * (t[1][1] - t[0][1]))


def intri(t, q, m):
    A = tarea(t)
    if abs(A) < 1e-14:
        return 0
    l = [tarea([q, t[1], t[2]]) / A, tarea([t[0], q, t[2]]) / A, tarea([t[0], t[1], q]) / A]
    return 1 if min(l) > m else (0 if min(l) < -m else -1)


def judge(ctx, rng, tris, outer, holes, sgn, label, tolA):
    A = abs(area(cl(outer))) - sum(abs(area(cl(h))) for h in holes)
    got = sum(abs(tarea(t)) for t in tris)
    if not ctx.check(abs(got - A) <= tolA, label + ":area", lambda: f"{label}: triangles cover area {got}, polygon has {A}; outer {fmt(outer)} holes {fmt(holes)}", [outer, holes]):
        return
    if sgn is not None:
        for t in tris:
            if tarea(t) * sgn < -1e-9 * max(1, A):
                return ctx.viol(label + ":winding", f"{label}: triangle {t} winds against the polygon; outer {fmt(outer)} holes {fmt(holes)}")
    verts = [(p[0], p[1]) for v in [outer] + holes for p in v]
    for t in tris:
        for v in t:
            if min(abs(v[0] - p[0]) + abs(v[1] - p[1]) for p in verts) > 1e-6 * max(1, abs(v[0]) + abs(v[1])):
                return ctx.viol(label + ":vertex", f"{label}: triangle vertex {v} is not an input vertex")
    lo, hi = pbox(pieces(cl(outer)))
    loops = [cl(outer)] + [cl(h) for h in holes]
    size = max(hi[0] - lo[0], hi[1] - lo[1])
    for _ in range(30):
        q = P(rng.uniform(lo[0], hi[0]), rng.uniform(lo[1], hi[1]))
        if min(fdist(l, q) for l in loops) < 2e-3 * size:
            continue
        r = [intri(t, q, 1e-6) for t in tris]
        if -1 in r:
            continue
        ctx.ev("tri_membership")
        w = 1 if winding_inside(loops[0], q) and not any(winding_inside(l, q) for l in loops[1:]) else 0
        if sum(r) != w:
            return ctx.viol(label + ":cover", f"{label}: point {fmt(q)} covered by {sum(r)} triangles, expected {w}; outer {fmt(outer)} holes {fmt(holes)}")


def orient(rng, v):
    return v[::-1] if rng.random() < .5 else v


def g_tri(ctx, rng):
    s = 10 ** rng.uniform(-0.3, 2)
    off = rng.choice([0, 1, 1, 5]) * s
    outer, holes = with_holes(rng, P(rng.uniform(-off, off) if off else 0, rng.uniform(-off, off) if off else 0), s, rng.choice([0, 0, 1, 2, 4]))
    o, hs = orient(rng, outer), [orient(rng, h) for h in holes]
    if rng.random() < .5:
        o = cl(o)
    if rng.random() < .5:
        hs = [cl(h) for h in hs]
    if rng.random() < .2:
        i = rng.randrange(len(o) - 1)
        o = o[:i + 1] + [list(o[i])] + o[i + 1:]        # duplicate vertex
    ctx.case(("tri", fmt(o), fmt(hs)))
    ok = copy.deepcopy((o, hs))
    tris = tri.triangulate_polygon(o, hs)
    ctx.ev("triangulations"), ctx.ev("holes", len(holes))
    ctx.check((o, hs) == ok, "triangulate:mutated", "triangulate_polygon modified its input")
    judge(ctx, rng, [[list(p) for p in t] for t in tris], outer, holes, None, "triangulate", 1e-6 * s * s)


def plane(rng):
    """random rigid map as (R rows, t)"""
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    w, x, y, z = [c / n for c in q]
    R = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    t = [rng.uniform(-20, 20) for _ in range(3)]
    return R, t


def rig(M, p):
    R, t = M
    return [sum(R[i][j] * p[j] for j in range(3)) + t[i] for i in range(3)] + [1.0]


def unrig(M, p):
    R, t = M
    d = [p[i] - t[i] for i in range(3)]
    return [sum(R[j][i] * d[j] for j in range(3)) for i in range(3)] + [1.0]


def g_surf(ctx, rng):
    s = 10 ** rng.uniform(-1.5, 1.5)
    outer, holes = with_holes(rng, P(rng.uniform(-s, s), rng.uniform(-s, s)), s, rng.choice([0, 1, 1, 3]))
    ocw = rng.random() < .5
    o = outer[::-1] if ocw else outer
    hs = [orient(rng, h) for h in holes]
    if rng.random() < .5:
        o, hs = cl(o), [cl(h) for h in hs]
    ctx.ev("triangulations"), ctx.ev("holes", len(holes))
    if rng.random() < .5:
        ctx.case(("surfXY", fmt(o), fmt(hs)))
        k = copy.deepcopy((o, hs))
        surf, _ = geom3d.poly2surfaceXY(o, hs, **rng.choice([{}, {"minarea": 0.0}]))
        ctx.check((o, hs) == k, "surfXY:mutated", "poly2surfaceXY modified its input")
        M, label, sgn = None, "surfXY", -1 if ocw else 1
    else:
        M, label = plane(rng), "surf3d"
        ctx.ev("planes")
        ctx.case(("surf3d", fmt(o), fmt(hs), fmt(M[0])))
        surf, _ = geom3d.poly2surface([rig(M, p) for p in o], [[rig(M, p) for p in h] for h in hs])
        sgn = -1 if ocw else 1
    ctx.check(geom3d.issurface(surf, fast=False), label + ":invalid", "result is not a valid surface")
    V = [unrig(M, v) if M else v for v in surf[1]]
    if M:
        for v in V:
            if abs(v[2]) > 1e-6 * s + 1e-6:
                return ctx.viol("surf3d:plane", f"vertex off the polygon's plane by {v[2]}")
    for n in surf[2]:
        m = n if not M else [sum(M[0][j][i] * n[j] for j in range(3)) for i in range(3)]
        if abs(m[2] * sgn - 1) > 1e-6 or abs(n[3]) > 1e-9:
            return ctx.viol(label + ":normal", f"normal {n} is not the unit plane normal on the side of the winding")
    judge(ctx, rng, [[V[i] for i in f] for f in surf[3]], outer, holes, sgn, label, 2e-6 * s * s + 1e-4 * 0)
    # boundary / hole index loops trace the input loops
    for idx, loop in [(surf[4], outer)] + list(zip(surf[5], holes)):
        a = abs(area(cl([V[i] for i in idx])))
        if len(idx) != len(loop) or abs(a - abs(area(cl(loop)))) > 1e-5 * s * s:
            return ctx.viol(label + ":boundary", f"boundary/hole index loop {idx} does not trace the input loop")
    ctx.check(len(surf[5]) == len(holes), label + ":holes", "number of hole loops differs")
    ar = geom3d.surfacearea(surf)
    want = abs(area(cl(outer))) - sum(abs(area(cl(h))) for h in holes)
    ctx.check(abs(ar - want) <= 1e-5 * s * s, label + ":surfacearea", f"surfacearea {ar} expected {want}")
    ls = geom3d.surf2lines(surf)
    es = {frozenset((f[i], f[(i + 1) % 3])) for f in surf[3] for i in range(3)}
    ctx.check(len(ls) == len(es), label + ":surf2lines", f"{len(ls)} lines for {len(es)} edges")


# ---------------------------------------------------------------- outlines
def outline(rng, c, s):
    """(figure elements list, reference closed figure, is_nested_element)"""
    k = rng.random()
    if k < .25:
        f = [c, [s * rng.uniform(.7, 1), 0, 360, rng.choice([-1, -2])]]
        return [f], f
    if k < .5:
        v = orient(rng, ring(rng, c, s * .7))
        return [cl(v)], cl(v)
    if k < .75:
        v = orient(rng, ring(rng, c, s * .7))
        segs = [[list(p[1]), list(p[2])] for p in pieces(cl(v))]
        return segs, cl(v)
    l = rclosedlist(rng, c=c, s=s * .7, cw=rng.random() < .5)
    return copy.deepcopy(l), l


def place(rng, c, s, depth, out, parent):
    els, f = outline(rng, c, s)
    me = len(out)
    out.append((els, f, parent))
    if depth == 0:
        return
    for _ in range(rng.randint(0, 2)):
        for _try in range(10):
            r = s * rng.uniform(.1, .3)
            if r < .9:
                break
            q = P(c[0] + rng.uniform(-s, s) * .7, c[1] + rng.uniform(-s, s) * .7)
            # the disc (q, 1.3 r) must be inside f and clear of earlier children
            if not winding_inside(f, q) or fdist(f, q) < 1.5 * r + .02 * s:
                continue
            if any(p == me and (fdist(g, q) < 1.5 * r + .02 * s or winding_inside(g, q)) for (_, g, p) in out[me + 1:]):
                continue
            place(rng, q, r, depth - 1, out, me)
            break


def g_outline(ctx, rng):
    out = []
    top = rng.choice([1, 1, 2, 3])
    for i in range(top):
        place(rng, P(40 * i + rng.uniform(-3, 3), rng.uniform(-20, 20)), 15, rng.choice([0, 1, 2, 3]), out, None)
    gl, segs = [], []
    for els, f, par in out:
        if rng.random() < .3:
            gl.append(els if len(els) > 1 else els[0])     # nested list
        else:
            segs += els
    if rng.random() < .7:
        for i, e in enumerate(segs):
            if is_line(e) and rng.random() < .3:
                segs[i] = [e[1], e[0]]
        rng.shuffle(segs)
    gl = gl + segs
    rng.shuffle(gl)
    if rng.random() < .3:
        gl.append(P(1, 2))
    if len(gl) == 1 and not is_arc(gl[0]):
        gl = [gl[0]]
    ctx.case(("outline", fmt(gl)))
    ctx.ev("outline_sets")
    minang, minlen = rng.choice([(5, .25), (5, .05), (10, .1)])
    k = copy.deepcopy(gl)
    comps = geom_util.geomlist2poly_components(gl, minang, minlen)
    ctx.check(gl == k, "outline:mutated", "geomlist2poly_components modified its input")
    loops = [(o, None, 'outer') for o, _ in comps]
    for i, (o, hs) in enumerate(comps):
        loops += [(h, i, 'hole') for h in hs]
    if not ctx.check(len(loops) == len(out), "outline:count", lambda: f"{len(out)} outlines gave {len(loops)} loops: {fmt(gl)}", gl):
        return
    # match each reference outline with one loop (vertices on the outline)
    used = {}

    def depth(i):
        d = 0
        while out[i][2] is not None:
            i, d = out[i][2], d + 1
        return d
    which = {}
    for j, (lp, par, kind) in enumerate(loops):
        ctx.ev("loops")
        if d2(lp[0], lp[-1]) > 1e-6:
            return ctx.viol("outline:open", f"loop not closed {fmt(lp)}")
        best = min(range(len(out)), key=lambda i: max(fdist(out[i][1], p) for p in lp))
        dev = max(fdist(out[best][1], p) for p in lp)
        if dev > max(.02, minlen * .11):
            return ctx.viol("outline:stray", f"loop vertex {dev} away from every outline; {fmt(lp)} of {fmt(gl)}")
        if best in used:
            return ctx.viol("outline:duplicate", f"two loops for one outline: {fmt(gl)}")
        used[best] = j
        which[j] = best
    size = 15
    for i, (els, f, par) in enumerate(out):
        j = used[i]
        lp, pi, kind = loops[j]
        A, got = abs(area(f)), area(lp)
        chord = sum(abs(.5 * p[2] ** 2 * (abs(p[4]) - math.sin(abs(p[4])))) * 0 + abs(p[2] * p[4]) * (p[2] * math.radians(minang) ** 2 / 8 + min(minlen ** 2 / (2 * p[2]) * 4, p[2])) for p in pieces(f) if p[0] == 'A')
        if abs(abs(got) - A) > chord + 1e-2 * rlen(f) * minlen + 1e-6:
            return ctx.viol("outline:area", f"outline area {A} tessellated to {got} (tolerance {chord}); {fmt(f)}")
        d = depth(i)
        wantk = 'outer' if d % 2 == 0 else 'hole'
        if kind != wantk:
            return ctx.viol("outline:nesting", f"outline at nesting depth {d} classified as {kind}: {fmt(gl)}")
        if kind == 'hole' and which[pi] != par:
            return ctx.viol("outline:parent", f"hole attached to the wrong outline: {fmt(gl)}")
        if (got > 0) != (kind == 'outer'):
            return ctx.viol("outline:orientation", f"{kind} loop has signed area {got}")
    if len(out) == 1:
        p1 = geom_util.geomlist2poly(gl, minang, minlen)
        ctx.check(p1 == comps[0][0], "outline:geomlist2poly", "geomlist2poly differs from the outer loop")


# ---------------------------------------------------------------- patterns
def rotz(p, a, c):
    x, y = p[0] - c[0], p[1] - c[1]
    return P(c[0] + x * math.cos(a) - y * math.sin(a), c[1] + x * math.sin(a) + y * math.cos(a), p[2])


def g_pattern(ctx, rng):
    _, f = rfigure(rng, kinds=['line', 'arc', 'circle', 'open', 'polygon', 'clist', 'nested'])
    n = rng.choice([1, 1, 2, 3, 4, 5, 7, 12])
    ctx.ev("patterns")
    k = copy.deepcopy(f)
    us = [i / 7 for i in range(8)]
    if rng.random() < .5:
        c = P(rng.uniform(-5, 5), rng.uniform(-5, 5)) if rng.random() < .7 else None
        ang = rng.choice([None, 360, 360.0, 180, 90, -90, 37.5, 720, -360, 0.5])
        ctx.case(("radial", fmt(f), n, fmt(c or []), ang))
        r = geom_util.radial_pattern(f, n, c, None, ang)
        full = ang is None or abs(ang - 360) < 1e-9
        A = 360.0 if ang is None else float(ang)
        step = 0 if n == 1 else A / n if full else A / (n - 1)
        if full:
            A = 360
        maps = [lambda p, i=i: rotz(p, math.radians(i * step), c or P(0, 0)) for i in range(n)]
    else:
        v = [rng.uniform(-9, 9) for _ in range(3)]
        sp = rng.choice([v, tuple(v), v + [1.0], v[:2]])
        dz = v[2] if len(sp) > 2 else 0
        ctx.case(("linear", fmt(f), n, repr(sp)))
        r = geom_util.linear_pattern(f, n, sp)
        maps = [lambda p, i=i: P(p[0] + i * v[0], p[1] + i * v[1], p[2] + i * dz) for i in range(n)]
    if not ctx.check(len(r) == n, "pattern:count", f"{len(r)} copies, expected {n}"):
        return
    ctx.check(f == k, "pattern:mutated", "pattern modified its input")
    for i, g in enumerate(r):
        if is_circle(f):
            c1 = maps[i](f[0])
            ok = close(g[0], c1, 1e-6) and abs(g[1][0] - f[1][0]) < 1e-9
        else:
            ok = all(close(geom.sample(g, u), maps[i](rsample(f, u)), 1e-5) for u in us)
        if not ok:
            return ctx.viol("pattern:placement", f"copy {i} of {n} misplaced: {fmt(f)} -> {fmt(g)}")


GROUPS = {"tri": (g_tri, 700, 10000), "surf": (g_surf, 500, 8000), "outline": (g_outline, 600, 8000), "pattern": (g_pattern, 400, 4000)}
if __name__ == "__main__":
    vf.main(globals())
