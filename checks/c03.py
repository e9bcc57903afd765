import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import vf
from gen2d import *

PROP = "C03"
LEVEL = "exploration"
META = dict(
    title="2D intersections are sound, complete and consistent with their parameters",
    statement="For any two XY-coplanar figures among lines, arcs, circles, polylines, polygons and (nested) geometry lists in general position, the reported intersection points are exactly the points common to both curves, in either argument order; with inside=False a line and an arc are treated as an infinite line and a full circle (a line against a closed figure or list: only the line is extended). Exactly tangent lines and circles report the touching point. Parameter results taken within [0,1] sample to those same points on the respective figures. Circle-circle and point-circle tangent lines touch the circles tangentially, and point-to-line queries return the nearest point, its distance and its parameter.",
    over=["inputs"], q="for all pairs of figures in general position (no tangencies or shared end points within 1e-3)",
    why="Tests intersect a few symmetric shapes; pairs of kinds x sample reversal x wrapped sweeps x nesting x short segments give a space only a reference intersector can judge.",
    files=["src/yapcad/geom.py"],
    mech=[("intersectXY and its pairwise helpers; linePointXY; circleCircleTangentsXY", "src/yapcad/geom.py")],
    technique="reference-model monitor: independent analytic line/arc intersector over flattened figures",
    note="Exploration over generated pairs in general position; degenerate configurations (inexact tangency, coincident edges, hits within 1e-3 of a joint) are excluded by the generator.",
)
RULE = "random pairs of figure kinds; a case counts when the reference finds the pair in general position; non-trivial when at least one intersection or a near miss exists"
REQUIRE = {"pairs": 3000, "points_matched": 5000, "params_matched": 3000}


def init():
    global geom
    from yapcad import geom


# reference pairwise intersection of pieces; returns list of (t1,t2,pt,margin)
def circ_ts(p, q):
    c, r, a0, sw = p[1:]
    ang = math.atan2(q[1] - c[1], q[0] - c[0])
    if sw < 0:
        d = (a0 - ang) % TAU
        a = -sw
    else:
        d = (ang - a0) % TAU
        a = sw
    if d > (a + TAU) / 2:
        d -= TAU
    return d / a


class Degenerate(Exception):
    pass


def ref_int(p, q, infinite=False):
    out = []
    if p[0] == 'P' or q[0] == 'P':
        return out
    if p[0] == 'A' and q[0] == 'L':
        return [(b, a, x) for a, b, x in ref_int(q, p, infinite)]
    cand = []
    if p[0] == 'L' and q[0] == 'L':
        a, b, c, d = p[1], p[2], q[1], q[2]
        ux, uy, vx, vy = b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1]
        den = ux * vy - uy * vx
        lu, lv = math.hypot(ux, uy), math.hypot(vx, vy)
        if abs(den) < 0.01 * lu * lv:
            # near parallel: degenerate if close to each other
            if min(pdist(p, c), pdist(p, d), pdist(q, a), pdist(q, b)) < 0.01 or infinite:
                raise Degenerate
            t = None
            if abs(den) < 1e-12 * lu * lv:
                return out
            t = ((c[0] - a[0]) * vy - (c[1] - a[1]) * vx) / den
            s = ((c[0] - a[0]) * uy - (c[1] - a[1]) * ux) / den
            if -0.2 < t < 1.2 and -0.2 < s < 1.2:
                raise Degenerate
            return out
        t = ((c[0] - a[0]) * vy - (c[1] - a[1]) * vx) / den
        s = ((c[0] - a[0]) * uy - (c[1] - a[1]) * ux) / den
        cand.append((t, s, [a[0] + t * ux, a[1] + t * uy]))
    elif p[0] == 'L':
        a, b = p[1], p[2]
        c, r = q[1], q[2]
        L = plen(p)
        ux, uy = (b[0] - a[0]) / L, (b[1] - a[1]) / L
        k = (c[0] - a[0]) * ux + (c[1] - a[1]) * uy
        h = abs((c[0] - a[0]) * uy - (c[1] - a[1]) * ux)
        if abs(h - r) < 0.01 * r + 1e-3:
            raise Degenerate
        if h > r:
            return out
        w = math.sqrt(r * r - h * h)
        for s in (k - w, k + w):
            pt = [a[0] + ux * s, a[1] + uy * s]
            cand.append((s / L, circ_ts(q, pt), pt))
    else:
        c1, r1, c2, r2 = p[1], p[2], q[1], q[2]
        d = d2(c1, c2)
        if abs(d - (r1 + r2)) < 0.02 or abs(d - abs(r1 - r2)) < 0.02 or d < 0.01:
            raise Degenerate
        if d > r1 + r2 or d < abs(r1 - r2):
            return out
        a = (r1 * r1 - r2 * r2 + d * d) / (2 * d)
        h = math.sqrt(max(0, r1 * r1 - a * a))
        ux, uy = (c2[0] - c1[0]) / d, (c2[1] - c1[1]) / d
        for sg in (1, -1):
            pt = [c1[0] + ux * a - sg * uy * h, c1[1] + uy * a + sg * ux * h]
            cand.append((circ_ts(p, pt), circ_ts(q, pt), pt))
    for t, s, pt in cand:
        if infinite:
            out.append((t, s, pt))
            continue
        inn = True
        near = False
        for pc, v in ((p, t), (q, s)):
            if pc[0] == 'A' and abs(abs(pc[4]) - TAU) < 1e-12:
                if min(d2(peval(pc, 0), pt), 1) < 1e-3:
                    near = True       # seam of a circle
                continue
            if v < 0 or v > 1:
                inn = False
        if inn is False:
            # is it a hair outside?
            if all((pc[0] == 'A' and abs(abs(pc[4]) - TAU) < 1e-12) or -1e-3 < (v) * plen(pc) and (v - 1) * plen(pc) < 1e-3 for pc, v in ((p, t), (q, s))):
                raise Degenerate
            continue
        for pc, v in ((p, t), (q, s)):
            if min(d2(peval(pc, 0), pt), d2(peval(pc, 1), pt)) < 1e-3:
                near = True
        if near:
            raise Degenerate
        out.append((t, s, pt))
    return out


def ref_all(f, g):
    pts = []
    for p in pieces(f):
        if plen(p) == 0:
            continue
        for q in pieces(g):
            if plen(q) == 0:
                continue
            pts += [x[2] for x in ref_int(p, q)]
    return pts


def match(A, B, tol):
    return all(any(d2(a, b) < tol for b in B) for a in A)


def ext_hits(f, g):
    """points on extensions of open first/last segments may come out of params mode; ignored by [0,1] filter"""


def compare(ctx, f, g, want, kf, kg):
    got = geom.intersectXY(f, g)
    got = [] if got is False else got
    ctx.ev("pairs")
    ctx.ev("points_matched", len(want))
    ctx.check(match(got, want, 1e-4), "unsound", lambda: f"intersectXY({kf},{kg}) reports {[q for q in got if not match([q], want, 1e-4)]} not on both curves; f={fmt(f)} g={fmt(g)}", [f, g])
    ctx.check(match(want, got, 1e-4), "incomplete", lambda: f"intersectXY({kf},{kg}) misses {[q for q in want if not match([q], got, 1e-4)]}; f={fmt(f)} g={fmt(g)}", [f, g])
    if len(want) == len(got):
        pass
    else:
        ctx.check(len(got) == len(want), "multiplicity", lambda: f"intersectXY({kf},{kg}) returned {len(got)} points for {len(want)} crossings; f={fmt(f)} g={fmt(g)}", [f, g])
    r = geom.intersectXY(f, g, params=True)
    if r is False:
        ctx.check(not want, "params-incomplete", lambda: f"params=True False but {len(want)} crossings; {kf},{kg} f={fmt(f)} g={fmt(g)}", [f, g])
        return
    ctx.check(len(r) == 2 and len(r[0]) == len(r[1]), "params-shape", lambda: f"params result malformed {r}")
    pp = []
    for u, v in zip(r[0], r[1]):
        if isinstance(u, bool) or isinstance(v, bool):
            continue
        if 0 <= u <= 1 and 0 <= v <= 1:
            a, b = rsample(f, u), rsample(g, v)
            ctx.ev("params_matched")
            if not ctx.check(d2(a, b) < 1e-3, "params-disagree", lambda: f"params ({u},{v}) sample to different points {a} {b}: {kf},{kg} f={fmt(f)} g={fmt(g)}", [f, g]):
                return
            pp.append(a)
    ctx.check(match(want, pp, 1e-3) and match(pp, want, 1e-3), "params-set", lambda: f"params of {kf},{kg} give points {pp} expected {want}; f={fmt(f)} g={fmt(g)}", [f, g])


def fig(rng, z):
    k = rng.choice(['line', 'line', 'arc', 'arc', 'circle', 'open', 'polygon', 'clist', 'olist', 'nested', 'single', 'tiny', 'pts'])
    if k == 'single':
        return k, [rfigure(rng, z, ['line', 'arc', 'circle', 'open', 'polygon', 'olist'])[1]]
    if k == 'tiny':
        a = rpt(rng, 3, z)
        t = rng.uniform(0, TAU)
        r = rng.uniform(0.03, 0.3)
        return k, [a, P(a[0] + r * math.cos(t), a[1] + r * math.sin(t), z)]
    if k == 'pts':
        l = ropenlist(rng, 8, z)
        l.insert(rng.randrange(len(l) + 1), rpt(rng, 8, z))
        return k, l
    if k == 'open':
        return k, ropenpoly(rng, 8, z, n=rng.choice([3, 3, 4, 6]))
    return rfigure(rng, z, [k])


def g_pair(ctx, rng):
    z = rng.choice([0, 0, 2.5])
    kf, f = fig(rng, z)
    kg, g = fig(rng, z)
    if kg == 'tiny' and kf in ('line', 'tiny'):
        # put a tiny crossing on the other line
        m = rsample(f, rng.uniform(0.2, 0.8))
        t, r = rng.uniform(0, TAU), rng.uniform(0.02, 0.1)
        g = [P(m[0] - r * math.cos(t), m[1] - r * math.sin(t), z), P(m[0] + r * math.cos(t), m[1] + r * math.sin(t), z)]
    try:
        want = ref_all(f, g)
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    # two crossings at (nearly) the same place make multiplicity ambiguous
    if any(d2(want[i], want[j]) < 5e-3 for i in range(len(want)) for j in range(i)):
        return
    fa, ga = copy.deepcopy(f), copy.deepcopy(g)
    if want:
        ctx.case((kf, kg, fmt(f), fmt(g)))
        ctx.ev(f"{kf}x{kg}")
    compare(ctx, f, g, want, kf, kg)
    compare(ctx, g, f, want, kg, kf)
    ctx.check(f == fa and g == ga, "mutated", "intersectXY modified an argument")


def g_infinite(ctx, rng):
    z = rng.choice([0, 2.5])
    kf, f = rfigure(rng, z, ['line', 'arc', 'circle'])
    kg, g = rfigure(rng, z, ['line', 'arc', 'circle'])
    pf, pg = pieces(f)[0], pieces(g)[0]
    try:
        want = [x[2] for x in ref_int(pf, pg, infinite=True)]
    except Degenerate:
        return
    want = [w for w in want]
    if any(max(abs(v) for v in w) > 500 for w in want):
        return
    ctx.case(("inf", fmt(f), fmt(g)))
    got = geom.intersectXY(f, g, inside=False)
    got = [] if got is False else got
    ctx.ev("infinite_pairs")
    ctx.check(match(got, want, 1e-3) and match(want, got, 1e-3) and len(got) == len(want), "infinite", lambda: f"inside=False {kf}x{kg}: {got} expected {want}; f={fmt(f)} g={fmt(g)}", [f, g])


def g_through(ctx, rng):
    """a line taken as infinite against a closed figure or list, which is not extended"""
    z = rng.choice([0, 2.5])
    f = rline(rng, 6, z)
    kg, g = rfigure(rng, z, ['polygon', 'clist', 'olist'])
    if plen(('L',) + tuple(f)) < 0.5 or len(g) < 2:
        return
    long = [rsample_line(f, -60), rsample_line(f, 61)]
    for p in long:
        p[2] = z
    try:
        want = ref_all(long, g)
    except Degenerate:
        return
    if any(d2(want[i], want[j]) < 5e-3 for i in range(len(want)) for j in range(i)):
        return
    ctx.case(("through", fmt(f), fmt(g)))
    ctx.ev("through_pairs")
    got = geom.intersectXY(f, g, inside=False) or []
    ctx.check(match(got, want, 1e-3) and match(want, got, 1e-3) and len(got) == len(want), "through", lambda: f"inside=False line x {kg}: {got} expected {want}; f={fmt(f)} g={fmt(g)}", [f, g])


def g_touch(ctx, rng):
    """exact tangency on representable coordinates: the touching point is reported"""
    R = lambda: rng.randint(1, 9) * rng.choice([0.25, 0.5, 1.0, 2.0])
    c = P(rng.randint(-8, 8), rng.randint(-8, 8))
    r1, r2 = R(), R()
    d = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
    e = P(c[0] + r1 * d[0], c[1] + r1 * d[1])
    k = rng.randrange(3)

    def sweep(cc, r):
        if rng.random() < 0.4:
            return [cc, [r, 0, 360, -1]]
        a = round(math.degrees(math.atan2(e[1] - cc[1], e[0] - cc[0]))) % 360
        return [cc, [r, (a - rng.randint(20, 170)) % 360, (a + rng.randint(20, 170)) % 360, rng.choice([-1, -2])]]

    f = sweep(c, r1)
    if k == 0:
        s = rng.randint(1, 9), rng.randint(1, 9)
        g = [P(e[0] - d[1] * s[0], e[1] - d[0] * s[0]), P(e[0] + d[1] * s[1], e[1] + d[0] * s[1])]
    else:
        if k == 2 and r1 == r2:
            return
        q = r2 if k == 1 else -r2
        g = sweep(P(e[0] + q * d[0], e[1] + q * d[1]), r2)
    ctx.case(("touch", fmt(f), fmt(g)))
    for a, b in ((f, g), (g, f)):
        got = geom.intersectXY(a, b) or []
        ctx.ev("touches")
        ctx.check(len(got) >= 1 and match(got, [e], 1e-4), "touch", lambda: f"{fmt(a)} touches {fmt(b)} at {e}: {got}", [a, b])


def g_end(ctx, rng):
    """line ending exactly on an arc/circle, and crossing it once: a hit at a segment end is a hit"""
    c = rpt(rng, 5, 0, grid=True)
    r = float(rng.randint(1, 5))
    d = rng.choice([(1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8), (-0.8, 0.6)])
    e = P(c[0] + r * d[0], c[1] + r * d[1])
    o = P(c[0] - d[0] * r * rng.choice([3, 2, 1.5]), c[1] - d[1] * r * rng.choice([3, 2, 1.5]))
    if abs((o[0] - c[0]) * d[1] - (o[1] - c[1]) * d[0]) > 1e-9 and rng.random() < 2:
        o = P(c[0] - 2 * r * d[0], c[1] - 2 * r * d[1])
    f = [o, e] if rng.random() < 0.5 else [e, o]
    g = [c, [r, 0, 360, -1]]
    got = geom.intersectXY(f, g) or []
    ctx.case(("end", fmt(f), fmt(g)))
    ctx.ev("end_hits")
    other = P(c[0] - r * d[0], c[1] - r * d[1])
    ctx.check(match([e, other], got, 1e-4) and match(got, [e, other], 1e-4), "end-hit", lambda: f"line {fmt(f)} ending on circle {fmt(g)}: {got} expected {e},{other}", [f, g])


def g_tangent(ctx, rng):
    c1 = rarc(rng, 8, 0, circle=True, rmax=4)
    if rng.random() < 0.6:
        c2 = rarc(rng, 8, 0, circle=True, rmax=4)
        if d2(c1[0], c2[0]) < abs(c1[1][0] - c2[1][0]) + 0.3:
            return
        ll = geom.circleCircleTangentsXY(c1, c2)
        r2 = c2[1][0]
    else:
        p = rpt(rng, 9)
        if d2(p, c1[0]) < c1[1][0] + 0.3:
            return
        c2, r2 = c1, c1[1][0]
        c1 = [p, [0.0, 0, 360, -1]]
        ll = geom.pointCircleTangentsXY(p, c2)
    ctx.case(("tan", fmt(c1), fmt(c2)))
    ctx.ev("tangents")
    ctx.check(len(ll) == 2, "tangent", f"expected two tangent lines, got {ll}")
    tol = 5e-5 if c1[1][0] else 1e-4
    sides = []
    for l in ll:
        for c, r, e in ((c1, c1[1][0], l[0]), (c2, r2, l[1])):
            L = d2(l[0], l[1])
            n = ((l[1][0] - l[0][0]) * (c[0][1] - l[0][1]) - (l[1][1] - l[0][1]) * (c[0][0] - l[0][0])) / L
            ctx.check(abs(abs(n) - r) < tol and abs(d2(e, c[0]) - r) < tol, "tangent", lambda: f"line {fmt(l)} not tangent to {fmt(c)} (distance {n}, touch {d2(e, c[0])})", [c1, c2])
        sides.append(n > 0)
    ctx.check(sides[0] != sides[1], "tangent", lambda: f"both tangents on the same side: {fmt(ll)}")


def g_near(ctx, rng):
    z = rng.choice([0, 3.0])
    l, p = rline(rng, 10, z), rpt(rng, 10, z)
    ctx.case(("near", fmt(l), fmt(p)))
    ctx.ev("nearest_queries")
    L = plen(('L',) + tuple(l))
    t = ((p[0] - l[0][0]) * (l[1][0] - l[0][0]) + (p[1] - l[0][1]) * (l[1][1] - l[0][1])) / L ** 2
    tc = max(0, min(1, t))
    q, qc = rsample_line(l, t), rsample_line(l, tc)
    ctx.check(close(geom.linePointXY(l, p, inside=False), q, 1e-5), "nearest", lambda: f"linePointXY(inside=False) {geom.linePointXY(l,p,inside=False)} expected {q}")
    if min(abs(t), abs(t - 1)) > 1e-4:
        ctx.check(close(geom.linePointXY(l, p), qc, 1e-4), "nearest", lambda: f"linePointXY {geom.linePointXY(l,p)} expected {qc} for {fmt(l)} {fmt(p)}")
    ctx.check(abs(geom.linePointXY(l, p, distance=True) - d2(qc, p)) < 1e-4, "nearest", lambda: f"linePointXY distance {geom.linePointXY(l,p,distance=True)} expected {d2(qc,p)}")
    ctx.check(abs(geom.linePointXYDist(l, p, inside=False) - d2(q, p)) < 1e-5, "nearest", "linePointXYDist inside=False")
    ctx.check(abs(geom.linePointXY(l, p, params=True) - t) < 1e-5, "nearest", lambda: f"linePointXY params {geom.linePointXY(l,p,params=True)} expected {t}")


def rsample_line(l, t):
    return [l[0][i] + (l[1][i] - l[0][i]) * t for i in range(3)] + [1.0]


GROUPS = {"pair": (g_pair, 7000, 60000), "infinite": (g_infinite, 1500, 10000), "end": (g_end, 400, 1000),
          "tangent": (g_tangent, 600, 6000), "through": (g_through, 1500, 10000), "touch": (g_touch, 800, 5000), "near": (g_near, 1000, 8000)}
if __name__ == "__main__":
    vf.main(globals())
