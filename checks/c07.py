import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math
import vf

PROP = "C07"
LEVEL = "exploration"
META = dict(
    title="Spline and conic curves: evaluation, sampling, tangents, length, bbox",
    statement="Evaluating or sampling a Bezier, B-spline (open or closed), NURBS, Catmull-Rom, ellipse, parabola or hyperbola curve yields the points of the mathematical curve at that parameter, for any control points, degree, knots, weights, rotation and plane normal: clamped curves start and end at their end control points, Catmull-Rom passes through every control point, closed curves close, conic points satisfy the conic equation in the given plane. Sampled polylines, length, bounding box, tangent and unsample agree with that same curve within the documented sampling resolution.",
    over=["inputs"], q="for all control points, degrees, knot vectors, weights, rotations, normals and parameters",
    why="Tests check a cubic or two at t=0, 0.5 and 1 in the XY plane; end points of higher control counts, periodic knots, tilted normals and rational weights are unexamined.",
    files=["src/yapcad/spline.py", "src/yapcad/geom.py"],
    mech=[("evaluate_*/sample_*", "src/yapcad/spline.py"), ("*_sample, *_tangent, *_length, *_bbox, sample, length, bbox", "src/yapcad/geom.py")],
    technique="differential oracle: scipy BSpline, rational homogeneous evaluation, Bernstein sums, Hermite-form Catmull-Rom and rotation-matrix conics run beside the real evaluators",
    note="Exploration; points compared at 1e-7 relative. Length and bbox are only required to lie between the documented sample count's value and the dense value. Ellipses with semi_minor > semi_major and partial range are outside the documented domain.",
)
RULE = "random 2D/3D control polygons (2-9 points, repeated points for Catmull-Rom excluded), degrees 1-5, clamped/unclamped non-uniform knots with multiplicities, weights over 3 decades, conics with random rotation, ranges (wrap-around) and normals; distinct by curve"
REQUIRE = {"points": 20000, "ends": 800, "tangents": 2500, "lengths": 600, "bboxes": 600, "through": 1500, "unsample": 400}


def init():
    global geom, spline, np, BS
    from yapcad import geom, spline
    import numpy as np
    from scipy.interpolate import BSpline as BS


def rpts(rng, n, flat=None):
    s = 10 ** rng.uniform(-1, 3)
    c = [rng.uniform(-3, 3) * s for _ in range(3)]
    flat = rng.random() < .4 if flat is None else flat
    out = []
    for _ in range(n):
        p = [c[0] + rng.uniform(-1, 1) * s, c[1] + rng.uniform(-1, 1) * s, 0.0 if flat else c[2] + rng.uniform(-1, 1) * s]
        out.append(geom.point(*p))
    return out, 8 * s


def V(p):
    return np.array([p[0], p[1], p[2]], float)


def near(p, q, tol):
    return len(p) == 4 and abs(p[3] - 1) < 1e-9 and float(np.abs(V(p) - q).max()) <= tol


def params(rng, k=6):
    return [0.0, 1.0] + [rng.random() for _ in range(k)] + [rng.randint(0, 8) / 8]


def common(ctx, rng, what, curve, ref, tol, scale, nl=100, nb=50, closed=False):
    """generic sample/length/bbox/unsample against reference evaluator ref(u)->np3"""
    for u in params(rng):
        p = geom.sample(curve, u)
        ctx.ev("points")
        ctx.check(near(p, ref(u), tol), f"{what}:sample", lambda: f"{what} at u={u!r}: got {p}, expected {list(ref(u))}", dict(curve=curve, u=u))
    n = 1500
    dense = np.array([ref(i / n) for i in range(n + 1)])
    L = float(np.linalg.norm(np.diff(dense, axis=0), axis=1).sum())
    co = np.array([ref(i / nl) for i in range(nl + 1)])
    Lc = float(np.linalg.norm(np.diff(co, axis=0), axis=1).sum())
    got = geom.length(curve)
    ctx.ev("lengths")
    # true length lies in [L, L + (L-Lc)*small]; accept [Lc, L*(1+1e-3)]
    ctx.check(Lc - tol - 1e-9 * L <= got <= L * (1 + 1e-3) + tol, f"{what}:length", lambda: f"{what} length {got} not within [{Lc}, {L}]", curve)
    bb = geom.bbox(curve)
    ctx.ev("bboxes")
    cb = np.array([ref(i / nb) for i in range(nb + 1)])
    dmin, dmax = dense.min(0), dense.max(0)
    # dense sampling of the reference misses at most its own sag
    sag = (dmax - dmin).max() * 2e-3 + tol
    lo, hi = V(bb[0]), V(bb[1])
    ok = bool((lo >= dmin - sag).all() and (hi <= dmax + sag).all() and (lo <= cb.min(0) + tol).all() and (hi >= cb.max(0) - tol).all())
    ctx.check(ok, f"{what}:bbox", lambda: f"{what} bbox {bb}, curve extents {list(dmin)}..{list(dmax)}", curve)
    if rng.random() < .5:
        i = rng.randint(0, 200)
        p = geom.point(*ref(i / 200))
        u = geom.unsample(curve, p)
        ctx.ev("unsample")
        if scale < 200:
            ctx.check(u is not False and not isinstance(u, bool) and 0 <= u <= 1 and near(geom.sample(curve, u), V(p), 1e-4), f"{what}:unsample", lambda: f"{what}: unsample of the point at u={i/200} gave {u}", curve)
        far = geom.point(*(dmax + scale + 1))
        uf = geom.unsample(curve, far)
        ctx.check(uf is False, f"{what}:unsample-far", lambda: f"{what}: unsample of a point off the curve gave {uf}", curve)


def poly_samples(ctx, what, pl, ref, us, tol, curve):
    ctx.check(len(pl) == len(us), f"{what}:count", lambda: f"{what}: {len(pl)} samples, expected {len(us)}", curve)
    for p, u in zip(pl, us):
        ctx.ev("points")
        if not ctx.check(near(p, ref(u), tol), f"{what}:polyline", lambda: f"{what}: polyline sample at u={u}: {p}, expected {list(ref(u))}", curve):
            break


def g_bezier(ctx, rng):
    n = rng.randint(2, 9)
    pts, s = rpts(rng, n)
    tol = 1e-8 * s + 1e-9
    M = np.array([V(p) for p in pts])
    def ref(u):
        return sum(math.comb(n - 1, i) * u ** i * (1 - u) ** (n - 1 - i) * M[i] for i in range(n))
    c = geom.bezier(pts)
    ctx.case(["bezier", pts])
    common(ctx, rng, "bezier", c, ref, tol, s)
    for e, k in ((0.0, 0), (1.0, -1)):
        ctx.ev("ends")
        ctx.check(near(geom.sample(c, e), M[k], tol), "bezier:end", "end point is not the end control point", c)
    seg = rng.choice([1, 2, 3, 7, 32, 50])
    us = [i / seg for i in range(seg + 1)]
    poly_samples(ctx, "bezier", spline.sample_bezier(c, segments=seg), ref, us, tol, c)
    tup = [tuple(p[:3]) for p in pts] if rng.random() < .5 else pts
    poly_samples(ctx, "bezier", spline.bezier_curve(tup, segments=seg), ref, us, tol, c)
    for u in params(rng, 3):
        t = spline.bezier_tangent(tup, u)
        D = (n - 1) * sum(math.comb(n - 2, i) * u ** i * (1 - u) ** (n - 2 - i) * (M[i + 1] - M[i]) for i in range(n - 1))
        ctx.ev("tangents")
        ctx.check(t[3] == 0 and np.abs(V(t) - D).max() < 1e-7 * s * n, "bezier:tangent", lambda: f"tangent {t} expected {D}", c)


def clamped(n, d):
    return [0.0] * (d + 1) + [i / (n - d) for i in range(1, n - d)] + [1.0] * (d + 1)


def g_bspline(ctx, rng):
    d = rng.randint(1, 5)
    n = rng.randint(d + 1, d + 7)
    closed = rng.random() < .5
    pts, s = rpts(rng, n)
    tol = 1e-8 * s + 1e-9
    M = np.array([V(p) for p in pts])
    if closed:
        kn = [(i - d) / n for i in range(n + 2 * d + 1)]
        B = BS(kn, np.vstack([M, M[[i % n for i in range(d)]]]), d)
        ref = lambda u: B(u % 1.0)
    else:
        B = BS(clamped(n, d), M, d)
        ref = lambda u: B(u)
    c = geom.bspline(pts, degree=d, closed=closed)
    what = "bspline-closed" if closed else "bspline"
    ctx.case([what, d, pts])
    common(ctx, rng, what, c, ref, tol, s)
    if closed:
        ctx.ev("ends")
        ctx.check(near(geom.sample(c, 0.0), V(geom.sample(c, 1.0)), tol), what + ":close", "closed B-spline does not close", c)
    else:
        for e, k in ((0.0, 0), (1.0, -1)):
            ctx.ev("ends")
            ctx.check(near(geom.sample(c, e), M[k], tol), what + ":end", "clamped end is not the end control point", c)
    seg = rng.choice([1, 2, 5, 16, 64])
    us = [i / seg for i in range(seg + 1)]
    poly_samples(ctx, what, spline.sample_bspline(c, segments=seg), ref, us, tol, c)
    poly_samples(ctx, what, spline.bspline_curve(pts, d, closed, seg), ref, us, tol, c)
    D = B.derivative()
    brk = set(B.t)
    for _ in range(3):
        u = rng.uniform(.001, .999)
        if min(abs(u - k) for k in brk) < 1e-4:
            continue
        t = spline.bspline_tangent(pts, u, d, closed)
        ctx.ev("tangents")
        ctx.check(np.abs(V(t) - D(u)).max() < 1e-3 * s * n, what + ":tangent", lambda: f"tangent {t} expected {D(u)}", c)


def g_nurbs(ctx, rng):
    d = rng.randint(1, 5)
    n = rng.randint(d + 1, d + 7)
    pts, s = rpts(rng, n)
    M = np.array([V(p) for p in pts])
    w = None if rng.random() < .25 else [10 ** rng.uniform(-1.5, 1.5) for _ in range(n)]
    k = rng.random()
    kn = None
    end = True
    if k < .35:
        kn = None
    elif k < .7:
        a, b = sorted(rng.uniform(-5, 5) for _ in range(2))
        b += 0.5
        m = n - d - 1
        inner = sorted(a + (b - a) * rng.choice([rng.random(), .25, .5, .75]) for _ in range(m))
        # multiplicity at most d
        if any(inner.count(x) > d for x in inner) or any(x <= a or x >= b for x in inner):
            inner = [a + (b - a) * (i + 1) / (m + 1) for i in range(m)]
        kn = [a] * (d + 1) + inner + [b] * (d + 1)
    else:
        end = False
        kn = [rng.uniform(-2, 2)]
        for _ in range(n + d):
            kn.append(kn[-1] + rng.uniform(.2, 1.5))
    c = geom.nurbs(pts, degree=d, weights=w, knots=kn)
    kk = kn or clamped(n, d)
    W = np.array(w or [1.0] * n)
    B = BS(kk, np.hstack([M * W[:, None], W[:, None]]), d)
    u0, u1 = kk[d], kk[-d - 1]
    def ref(u):
        h = B(u1 if u >= 1 else u0 + (u1 - u0) * u)
        return h[:3] / h[3]
    tol = 1e-8 * s + 1e-9
    ctx.case(["nurbs", d, pts, w, kn])
    common(ctx, rng, "nurbs", c, ref, tol, s)
    if end:
        for e, q in ((0.0, 0), (1.0, -1)):
            ctx.ev("ends")
            ctx.check(near(geom.sample(c, e), M[q], tol), "nurbs:end", lambda: f"clamped NURBS at u={e} is {geom.sample(c, e)}, control point {M[q]}", c)
    m = rng.choice([2, 3, 9, 33, 64])
    poly_samples(ctx, "nurbs", spline.sample_nurbs(c, samples=m), ref, [i / (m - 1) for i in range(m)], tol, c)


def cr_ref(M, closed, alpha):
    n = len(M)
    sc = n if closed else n - 1
    def ref(u):
        span = u * sc
        i = min(int(span), sc - 1)
        tau = span - i
        g = (lambda j: M[j % n]) if closed else (lambda j: M[min(max(j, 0), n - 1)])
        p0, p1, p2, p3 = g(i - 1), g(i), g(i + 1), g(i + 2)
        d0, d1, d2 = (float(np.linalg.norm(b - a)) ** alpha if np.linalg.norm(b - a) > 0 else 0.0 for a, b in ((p0, p1), (p1, p2), (p2, p3)))
        if alpha == 0:
            # every chord (repeated end points included) has unit length
            d0 = d1 = d2 = 1.0
        v1 = 0 * p1 if d0 == 0 else d1 * ((p1 - p0) / d0 - (p2 - p0) / (d0 + d1) + (p2 - p1) / d1)
        v2 = 0 * p1 if d2 == 0 else d1 * ((p2 - p1) / d1 - (p3 - p1) / (d1 + d2) + (p3 - p2) / d2)
        t = tau
        return (2 * t ** 3 - 3 * t ** 2 + 1) * p1 + (t ** 3 - 2 * t ** 2 + t) * v1 + (-2 * t ** 3 + 3 * t ** 2) * p2 + (t ** 3 - t ** 2) * v2
    return ref, sc


def g_catmull(ctx, rng):
    n = rng.randint(2, 8)
    pts, s = rpts(rng, n)
    if any(geom.dist(pts[i], pts[i - 1]) < 1e-3 * s for i in range(n)):
        return
    M = np.array([V(p) for p in pts])
    closed = rng.random() < .45 and n >= 3
    alpha = rng.choice([0.5, 0.5, 1.0, 0.0, rng.random()])
    c = geom.catmullrom(pts, closed=closed, alpha=alpha)
    ref, sc = cr_ref(M, closed, alpha)
    tol = 1e-7 * s + 1e-8
    ctx.case(["cr", closed, alpha, pts])
    common(ctx, rng, "catmullrom", c, ref, tol, s)
    for i in range(sc + 1):
        ctx.ev("through")
        ctx.check(near(geom.sample(c, i / sc), M[i % n], tol), "catmullrom:through", lambda: f"control point {i} not interpolated: {geom.sample(c, i/sc)} vs {M[i % n]}", c)
    k = rng.choice([1, 2, 5, 12])
    pl = spline.sample_catmullrom(c, segments_per_span=k)
    poly_samples(ctx, "catmullrom", pl, ref, [i / (k * sc) for i in range(k * sc + 1)], tol, c)


def rodr(n):
    n = np.array(n, float)
    n = n / np.linalg.norm(n)
    z = np.array([0, 0, 1.0])
    v = np.cross(z, n)
    c = float(z @ n)
    if np.linalg.norm(v) < 1e-9:
        return np.eye(3) if c > 0 else np.diag([1.0, -1.0, -1.0])
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + K + K @ K / (1 + c)


def g_conic(ctx, rng):
    kind = rng.choice(["ellipse", "parabola", "hyperbola"])
    s = 10 ** rng.uniform(-1, 2)
    cen = geom.point(*[rng.uniform(-5, 5) * s for _ in range(3)])
    rot = rng.choice([0, 30, 45, 90, rng.uniform(-360, 720)])
    nrm = rng.choice([None, None, [0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0], [rng.gauss(0, 1) for _ in range(3)], [rng.gauss(0, 3) for _ in range(3)]])
    R = rodr(nrm or [0, 0, 1])
    r = math.radians(rot)
    Z = np.array([[math.cos(r), -math.sin(r), 0], [math.sin(r), math.cos(r), 0], [0, 0, 1]])
    a = s * rng.uniform(.5, 3)
    if kind == "ellipse":
        b = a * rng.uniform(.05, 1)
        st, en = (0, 360) if rng.random() < .4 else (rng.choice([0, 30, rng.uniform(-180, 360)]), rng.choice([90, 270, rng.uniform(0, 360)]))
        if (st, en) != (0, 360) and (abs(st - en) < 1 or en < st - 359):
            return
        c = geom.ellipse(cen, a, b, rotation=rot, start=st, end=en, normal=nrm)
        e2 = en if en >= st else en + 360
        th = lambda u: math.radians(st + u * (e2 - st))
        loc = lambda u: (a * math.cos(th(u)), b * math.sin(th(u)))
        dl = lambda u: (-a * math.sin(th(u)), b * math.cos(th(u)))
        nb = 36
        tan = geom.ellipse_tangent
        full = (st, en) == (0, 360)
        ctx.check(geom.isfullellipse(c) == full, "ellipse:full", "isfullellipse wrong", c)
        if full:
            ctx.ev("ends")
            ctx.check(near(geom.sample(c, 0.), V(geom.sample(c, 1.)), 1e-8 * s + 1e-9), "ellipse:close", "full ellipse does not close", c)
        # conic equation in the local frame
        def eq(p):
            q = Z.T @ (R.T @ (V(p) - V(cen)))
            return abs(q[2]) / a + abs((q[0] / a) ** 2 + (q[1] / b) ** 2 - 1)
    else:
        st = rng.uniform(-3, 2)
        en = st + rng.uniform(.3, 4)
        nb = 50
        if kind == "parabola":
            st *= s; en *= s
            f = a
            c = geom.parabola(cen, f, rotation=rot, start=st, end=en, normal=nrm)
            T = lambda u: st + u * (en - st)
            loc = lambda u: (T(u) ** 2 / (4 * f), T(u))
            dl = lambda u: (T(u) / (2 * f), 1.0)
            tan = geom.parabola_tangent
            def eq(p):
                q = Z.T @ (R.T @ (V(p) - V(cen)))
                return abs(q[2]) / f + abs(q[1] ** 2 - 4 * f * q[0]) / (f * f)
        else:
            b = s * rng.uniform(.3, 3)
            br = rng.choice([1, -1])
            st = max(st, -2.5); en = min(en, 2.5)
            c = geom.hyperbola(cen, a, b, rotation=rot, start=st, end=en, branch=br, normal=nrm)
            T = lambda u: st + u * (en - st)
            loc = lambda u: (br * a * math.cosh(T(u)), b * math.sinh(T(u)))
            dl = lambda u: (br * a * math.sinh(T(u)), b * math.cosh(T(u)))
            tan = geom.hyperbola_tangent
            def eq(p):
                q = Z.T @ (R.T @ (V(p) - V(cen)))
                return abs(q[2]) / a + abs((q[0] / a) ** 2 - (q[1] / b) ** 2 - 1) / 40 + (10 if q[0] * br < 0 else 0)
    ref = lambda u: V(cen) + R @ (Z @ np.array([*loc(u), 0.0]))
    tol = 1e-7 * s + 1e-8
    ctx.case([kind, c])
    common(ctx, rng, kind, c, ref, tol, 8 * s, nb=nb)
    for u in params(rng, 4):
        ctx.ev("points")
        p = geom.sample(c, u)
        ctx.check(eq(p) < 1e-6, kind + ":equation", lambda: f"{kind} point {p} at u={u} violates its equation by {eq(p)}", c)
        t = tan(c, u)
        D = R @ (Z @ np.array([*dl(u), 0.0]))
        D = D / np.linalg.norm(D)
        ctx.ev("tangents")
        ctx.check(t[3] == 0 and np.abs(V(t) - D).max() < 1e-6, kind + ":tangent", lambda: f"{kind} tangent {t} at u={u}, expected {list(D)}", c)
    ctx.check(near(geom.center(c), V(cen), 1e-9 * s + 1e-12), kind + ":center", "center is not the conic centre/vertex", c)


GROUPS = {"bezier": (g_bezier, 300, 6000), "bspline": (g_bspline, 300, 6000), "nurbs": (g_nurbs, 300, 6000), "catmull": (g_catmull, 300, 6000), "conic": (g_conic, 500, 9000)}

if __name__ == "__main__":
    vf.main(globals())
