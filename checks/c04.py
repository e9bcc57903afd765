import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import vf
from gen2d import *

PROP = "C04"
LEVEL = "exploration"
META = dict(
    title="2D inside/outside tests classify every point correctly",
    statement="For every circle, simple polygon (convex or not, either orientation) and geometry list of disjoint or nested closed regions made of lines and arcs, the inside test answers true exactly for the points interior to the region (even-odd for nested regions), including points level with or aimed at vertices, edges and arc ends; only points within 1e-3 of the boundary are unspecified. For open figures it is true exactly for points on the curve. Figure objects (Geometry, Polygon and the shape classes) give the same answer as the functional test on their geometry, and triangle/convex-polygon membership and barycentric coordinates match the exact ones.",
    over=["inputs"], q="for all figures and all points not within 1e-3 of a boundary",
    why="Membership is tested at a few convenient points; failures sit where a test ray meets a vertex, lies along an edge or grazes an arc, i.e. on lattice-aligned inputs no small sample covers.",
    files=["src/yapcad/geom.py", "src/yapcad/geometry.py", "src/yapcad/poly.py"],
    mech=[("isinsideXY family, even-odd ray tests, barycentricXY", "src/yapcad/geom.py"), ("Geometry.isinsideXY", "src/yapcad/geometry.py")],
    technique="reference-model monitor: analytic half-open crossing-number oracle on lattice-aligned and random regions",
    note="Exploration; oracle is an independent y-monotone crossing count on exact line/arc pieces.",
)
RULE = "lattice polygons, random star polygons, arc-edged regions, multi-region lists; query points on a lattice through vertices plus random; a case is one (figure, point) away from the boundary"
REQUIRE = {"queries": 10000, "inside": 2000, "outside": 2000, "object_queries": 1000}


def init():
    global geom, geometry, polymod
    from yapcad import geom, geometry
    from yapcad import poly as polymod


def lattice_poly(rng):
    """rectilinear or lattice star polygon (simple) with integer coordinates"""
    k = rng.random()
    if k < 0.4:
        # histogram polygon: rectilinear, simple
        n = rng.randint(2, 5)
        hs = [rng.randint(1, 6) for _ in range(n)]
        x0, y0 = rng.randint(-6, 2), rng.randint(-6, 2)
        pts = [P(x0, y0)]
        for i, h in enumerate(hs):
            pts += [P(x0 + 2 * i, y0 + h), P(x0 + 2 * i + 2, y0 + h)]
        pts.append(P(x0 + 2 * n, y0))
        out = []
        for p in pts:      # drop duplicates
            if not out or d2(p, out[-1]) > 1e-9:
                out.append(p)
        out.reverse()
        return out
    if k < 0.7:
        c = (rng.randint(-4, 4), rng.randint(-4, 4))
        v = [(rng.randint(1, 6), 0), (rng.randint(1, 6),) * 2, (0, rng.randint(1, 6))]
        a = rng.randint(1, 6); v.append((-a, a)); v.append((-rng.randint(1, 6), 0))
        a = rng.randint(1, 6); v.append((-a, -a)); v.append((0, -rng.randint(1, 6)))
        a = rng.randint(1, 6); v.append((a, -a))
        v = [v[i] for i in sorted(rng.sample(range(8), rng.randint(4, 8)))]
        v = [P(c[0] + a, c[1] + b) for a, b in v]
        ok = winding_inside(closed(v), P(c[0] + 0.011, c[1] + 0.0073))
        return v
    x, y, w, h = rng.randint(-6, 3), rng.randint(-6, 3), rng.randint(1, 8), rng.randint(1, 8)
    return [P(x, y), P(x + w, y), P(x + w, y + h), P(x, y + h)]


def query_points(rng, f, n, z=0.0):
    ends = [peval(p, t) for p in pieces(f) for t in (0, 1) if p[0] != 'P']
    lo, hi = pbox(pieces(f))
    pts = []
    for _ in range(n):
        k = rng.random()
        if k < 0.12:
            # a test line from the point would meet a vertex or run along an edge
            a, (dx, dy) = rng.choice(ends), (hi[0] - lo[0] + 1, hi[1] - lo[1] + 1)
            fx, fy = rng.choice([(1.0, 0.1234567), (-0.2718282, 1.0), (-1.0, -0.3141593), (1, 0.1), (1, 0), (0, 1), (-1, 0), (0, -1), (1, 1)])
            t = rng.uniform(0.02, 0.6)
            pts.append(P(a[0] - t * fx * dx, a[1] - t * fy * dy, z))
        elif k < 0.35:
            a, b = rng.choice(ends), rng.choice(ends)
            pts.append(P(a[0], b[1], z))                       # level with two vertices
        elif k < 0.5:
            a = rng.choice(ends)
            pts.append(P(rng.uniform(lo[0] - 1, hi[0] + 1), a[1], z))
        elif k < 0.6:
            a, b = rng.choice(ends), rng.choice(ends)
            t = rng.choice([0.5, 0.25, -0.5, 1.5, rng.uniform(-1, 2)])
            pts.append(P(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), z))   # collinear with vertices
        elif k < 0.7:
            pts.append(P((lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, z))
        elif k < 0.8:
            a = hi if rng.random() < 0.5 else lo
            t = rng.uniform(0, 8)
            pts.append(P(hi[0] - t, hi[1] - t, z) if a is hi else P(lo[0] + t, lo[1] + t, z))
        else:
            pts.append(P(rng.uniform(lo[0] - 1, hi[0] + 1), rng.uniform(lo[1] - 1, hi[1] + 1), z))
    return pts


def judge(ctx, name, f, fn, pts, kind="queries"):
    for q in pts:
        if fdist(f, q) < 1e-3:
            continue
        want = winding_inside(f, q)
        got = fn(q)
        ctx.ev(kind)
        ctx.ev("inside" if want else "outside")
        ctx.case((name, fmt(f), fmt(q)))
        if bool(got) != want:
            ctx.viol("membership:" + name, f"{name}: point {fmt(q)} reported {'inside' if got else 'outside'}, is {'inside' if want else 'outside'} of {fmt(f)}", [f, q])
            return


def g_polygon(ctx, rng):
    z = rng.choice([0, 0, 0, 2.0])
    v = lattice_poly(rng) if rng.random() < 0.6 else rstar(rng)
    if rng.random() < 0.4:
        v.reverse()
    for p in v:
        p[2] = z
    k = rng.randrange(len(v))
    v = v[k:] + v[:k]
    f = closed(v)
    keep = copy.deepcopy(f)
    judge(ctx, "polygon", f, lambda q: geom.isinsideXY(f, q), query_points(rng, f, 8, z))
    ctx.check(f == keep, "mutated", "isinsideXY modified its argument")


def g_circle(ctx, rng):
    f = rarc(rng, 6, 0, circle=True, grid=rng.random() < 0.5)
    c, r = f[0], f[1][0]
    pts = [P(c[0] + r * a, c[1] + r * b) for a, b in [(rng.uniform(-1.3, 1.3), rng.uniform(-1.3, 1.3)) for _ in range(5)]] + [list(c), P(c[0] + r / 2, c[1]), P(c[0], c[1] + 2 * r), P(c[0] + r, c[1] + r)]
    judge(ctx, "circle", f, lambda q: geom.isinsideXY(f, q), pts)
    judge(ctx, "circle-list", [f], lambda q: geom.isinsideXY([f], q), pts)


def g_list(ctx, rng):
    k = rng.random()
    if k < 0.35:
        f = rclosedlist(rng, z=0)
        name = "closed-list"
    elif k < 0.5:
        v = lattice_poly(rng)
        f = [[list(v[i]), list(v[(i + 1) % len(v)])] for i in range(len(v))]
        name = "lattice-list"
    elif k < 0.65:
        # stadium / rounded rectangle on a lattice
        w, h, r = rng.randint(3, 8), rng.randint(3, 8), 1.0
        x, y = rng.randint(-5, 2), rng.randint(-5, 2)
        f = [[P(x + r, y), P(x + w - r, y)], [P(x + w - r, y + r), [r, 270, 0, -1]],
             [P(x + w, y + r), P(x + w, y + h - r)], [P(x + w - r, y + h - r), [r, 0, 90, -1]],
             [P(x + w - r, y + h), P(x + r, y + h)], [P(x + r, y + h - r), [r, 90, 180, -1]],
             [P(x, y + h - r), P(x, y + r)], [P(x + r, y + r), [r, 180, 270, -1]]]
        name = "rounded-rect"
    else:
        # outer polygon/circle with inner hole(s), plus a disjoint region
        c = P(rng.randint(-3, 3), rng.randint(-3, 3))
        outer = rng.choice([closed(rstar(rng, s=6, c=c, lo=0.8)), [c, [6.0, 0, 360, -1]], [c, [7, 0, 360, -1]]])
        f = [outer]
        inner = [P(c[0] + rng.uniform(-1, 1), c[1] + rng.uniform(-1, 1)), [rng.uniform(0.5, 1.5), 0, 360, -1]]
        f.append(inner if rng.random() < 0.5 else closed(rstar(rng, s=2, c=c)))
        if rng.random() < 0.5:
            f.append(closed(rstar(rng, s=2, c=P(c[0] + 14, c[1]))))
        if rng.random() < 0.3:
            f.append([P(c[0] - 14, c[1]), [2.0, 0, 360, -1]])
        rng.shuffle(f)
        name = "multi-region"
    judge(ctx, name, f, lambda q: geom.isinsideXY(f, q), query_points(rng, f, 8))
    if rng.random() < 0.4 and name != "multi-region":
        g = geometry.Geometry(f)
        judge(ctx, "Geometry(" + name + ")", f, g.isinsideXY, query_points(rng, f, 4), "object_queries")


def g_open(ctx, rng):
    k, f = rfigure(rng, 0, ['line', 'arc', 'open'])
    ctx.case((k, fmt(f)))
    for u in (0.0, 1.0, rng.random(), rng.random()):
        if k == 'arc' and u in (0.0, 1.0):
            continue
        q = rsample(f, u)
        ctx.ev("on_curve")
        ctx.check(bool(geom.isinsideXY(f, q)) is True, "open-on:" + k, lambda: f"point sample({u})={fmt(q)} of {k} {fmt(f)} not reported on it", [f, q])
    for _ in range(4):
        q = rpt(rng, 10)
        if rng.random() < 0.4 and k == 'arc':
            a = rng.uniform(0, TAU)
            r = f[1][0] * rng.uniform(0, 0.95)
            q = P(f[0][0] + r * math.cos(a), f[0][1] + r * math.sin(a))
        if rng.random() < 0.4 and k == 'arc':
            # on the circle of the arc, off its sweep
            (_, c, r, a0, sw), = pieces(f)
            if abs(sw) < TAU - 0.2:
                a = a0 - math.copysign(1, sw) * rng.uniform(0.02, TAU - abs(sw) - 0.02)
                q = P(c[0] + r * math.cos(a), c[1] + r * math.sin(a))
                ctx.ev("off_sweep")
        if rng.random() < 0.4 and k != 'arc':
            p = rng.choice(pieces(f))
            q = peval(p, rng.choice([-0.5, 1.5, -1.2, 2.3]))     # on the extension of an edge
        if fdist(f, q) < 0.02:
            continue
        ctx.ev("off_curve")
        ctx.check(bool(geom.isinsideXY(f, q)) is False, "open-off:" + k, lambda: f"point {fmt(q)} at distance {fdist(f,q)} reported on {k} {fmt(f)}", [f, q])


def g_tri(ctx, rng):
    while True:
        t = [rpt(rng, 8, grid=rng.random() < 0.5) for _ in range(3)]
        A = area(closed(t))
        if abs(A) > 0.5:
            break
    w = [rng.uniform(-0.6, 1.2) for _ in range(2)]
    w.append(1 - sum(w))
    q = P(*[sum(w[i] * t[i][j] for i in range(3)) for j in range(2)])
    ctx.case(("tri", fmt(t), fmt(q)))
    b = geom.barycentricXY(q, *t)
    ctx.ev("barycentric")
    ctx.check(all(abs(x - y) < 1e-6 for x, y in zip(b, w)), "barycentric", lambda: f"barycentricXY {b} expected {w}")
    if min(abs(x) for x in w) > 1e-6:
        ctx.check(geom.isInsideTriangleXY(q, t) is (min(w) > 0), "triangle", lambda: f"isInsideTriangleXY {fmt(t)} {fmt(q)}")
    # convex polygon
    n = rng.randint(3, 8)
    c, r, a0 = rpt(rng, 4), rng.uniform(1, 6), rng.uniform(0, TAU)
    angs = sorted(rng.uniform(0, TAU) for _ in range(n))
    if min((angs[(i + 1) % n] - angs[i]) % TAU for i in range(n)) < 0.1:
        return
    v = [P(c[0] + r * math.cos(a), c[1] + r * math.sin(a)) for a in angs]
    for _ in range(4):
        q = P(c[0] + r * rng.uniform(-1, 1), c[1] + r * rng.uniform(-1, 1))
        if fdist(closed(v), q) < 1e-3:
            continue
        # distance to internal diagonals is irrelevant (closed triangles)
        want = winding_inside(closed(v), q)
        ctx.ev("convex")
        try:
            got = geom.isInsideConvexPolyXY(q, v)
        except ValueError:
            continue
        ctx.check(got is want, "convex", lambda: f"isInsideConvexPolyXY({fmt(q)},{fmt(v)}) = {got}", [v, q])


def g_object(ctx, rng):
    """figure objects answer like their geometry"""
    k = rng.randint(0, 4)
    if k == 0:
        v = lattice_poly(rng) if rng.random() < 0.5 else rstar(rng)
        o = polymod.Polygon(v) if rng.random() < 0.5 else geometry.Geometry(closed(v))
        f = closed(v)
        name = type(o).__name__ + "-poly"
    elif k == 1:
        c, r = rpt(rng, 5), rng.uniform(0.5, 4)
        o = polymod.Circle(c, r)
        f = [c, [r, 0, 360, -1]]
        name = "Circle"
    elif k == 2:
        c, w, h = rpt(rng, 5, grid=True), rng.randint(1, 6), rng.randint(1, 6)
        o = polymod.Rect(w, h, c)
        f = closed([P(c[0] - w / 2, c[1] - h / 2), P(c[0] + w / 2, c[1] - h / 2), P(c[0] + w / 2, c[1] + h / 2), P(c[0] - w / 2, c[1] + h / 2)])
        name = "Rect"
    elif k == 3:
        c, r = rpt(rng, 5), rng.uniform(0.5, 4)
        o = geometry.Geometry([c, [r, 0, 360, -1]])
        f = [c, [r, 0, 360, -1]]
        name = "Geometry-circle"
    else:
        f = rclosedlist(rng)
        o = geometry.Geometry(f)
        name = "Geometry-list"
    judge(ctx, name, f, o.isinsideXY, query_points(rng, f, 6), "object_queries")


GROUPS = {"polygon": (g_polygon, 2500, 20000), "circle": (g_circle, 600, 4000), "list": (g_list, 1500, 12000),
          "open": (g_open, 1500, 12000), "tri": (g_tri, 1500, 10000), "object": (g_object, 1200, 10000)}
if __name__ == "__main__":
    vf.main(globals())
