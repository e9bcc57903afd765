import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import vf
from gen2d import *

PROP = "C02"
LEVEL = "exploration"
META = dict(
    title="Sampling, unsampling, slicing, length, bbox and center agree on every figure",
    statement="For every line, arc, circle, polyline, polygon and geometry list: sampling follows the documented arc-length parametrization, length is the length of that curve, unsampling a sampled point gives the parameter back (and False for points off the figure), slicing an interval yields exactly that stretch of the curve, and reversing a geometry list reverses its sampling. The bounding box contains the figure and touches it on every side, center is the documented midpoint or barycenter, and the continuity and closedness predicates answer according to the sampled endpoints. vstr prints points, lines and lists of any length and nesting without failing.",
    over=["inputs"], q="for all figures and all parameters and intervals",
    why="Tests sample a few hand-picked arcs and polygons; wrapped angles, sample-reversed arcs, zero-length members, extrema inside a sweep and reversed intervals are combinations they do not reach.",
    files=["src/yapcad/geom.py"],
    mech=[("sample/unsample/segment/length/bbox/center families", "src/yapcad/geom.py")],
    technique="reference-model monitor over sampled curves (independent arc-length evaluator)",
    note="Exploration over generated figures; oracle is an independent piecewise line/arc evaluator; positions compared at 1e-5.",
)
RULE = "random figures incl. wrapped/degenerate angles, reversed arcs, zero-length members; each case compares ~12 parameters, 3 intervals, box and center with the reference"
REQUIRE = {"samples_compared": 5000, "unsamples": 3000, "segments": 1500, "boxes": 1000, "extensions": 500, "lists_boxed": 100, "big_lists": 30}


def init():
    global geom
    from yapcad import geom


def us(rng, n=7):
    return [0.0, 1.0, 0.5] + [rng.random() for _ in range(n)]


def selfclose(f, u):
    """is some other stretch of f within 1e-3 of rsample(f,u)?  (unsample ambiguous)"""
    p = rsample(f, u)
    L = rlen(f)
    ps = [q for q in pieces(f) if plen(q) > 0]
    s = 0
    hits = 0
    for q in ps:
        if pdist(q, p) < 1e-3:
            hits += 1
        # extension of straight pieces may also match for open figures
        if q[0] == 'L':
            a, b = q[1], q[2]
            n = plen(q)
            perp = abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / n
            if perp < 1e-3 and pdist(q, p) >= 1e-3:
                hits += 1
        if q[0] == 'A' and abs(d2(q[1], p) - q[2]) < 1e-3 and pdist(q, p) >= 1e-3:
            hits += 1
        s += plen(q)
    return hits > 1


def common(ctx, rng, kind, f, closedfig, sliceable=True):
    L = rlen(f)
    size = 1 + max(abs(v) for p in pieces(f) for v in peval(p, 0)[:3])
    tol = 1e-6 * size * 5
    keep = copy.deepcopy(f)
    ctx.case((kind, fmt(f)))
    ctx.check(abs(geom.length(f) - L) < 1e-7 * (1 + L), "length", lambda: f"length({fmt(f)})={geom.length(f)} expected {L}", f)
    uu = us(rng)
    for u in uu:
        got, want = geom.sample(f, u), rsample(f, u)
        ctx.ev("samples_compared")
        if got is None or not close(got, want, tol):
            ctx.viol("sample", f"sample({u}) of {kind} {fmt(f)} = {got} expected {want}", f)
            break
    # unsample
    for u in uu[:6]:
        if selfclose(f, u) or ('list' in kind and u in (0.0, 1.0)):   # joints of a list: ambiguous to roundoff
            continue
        ps = [q for q in pieces(f) if plen(q) > 0]
        got = geom.unsample(f, rsample(f, u))
        ctx.ev("unsamples")
        ok = not isinstance(got, bool) and abs(got - u) * L < 2e-4 + 1e-5 * L
        if not ok and closedfig and not isinstance(got, bool):
            ok = abs(abs(got - u) - 1) * L < 2e-4
        if not ok:
            ctx.viol("unsample", f"unsample(sample({u})) = {got} on {kind} {fmt(f)}", f)
            break
    for _ in range(2):
        q = rpt(rng, 12, peval(pieces(f)[0], 0)[2])
        far = fdist(f, q) > 0.05
        if far:
            for pc in pieces(f):   # skip points on the extension of an end piece (documented extrapolation)
                if pc[0] == 'L':
                    a, b = pc[1], pc[2]
                    if plen(pc) > 0 and abs((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) / plen(pc) < 0.02:
                        far = False
                elif pc[0] == 'A' and abs(d2(pc[1], q) - pc[2]) < 0.02:
                    far = False
        if far:
            ctx.ev("unsample_misses")
            ctx.check(geom.unsample(f, q) is False, "unsample-far", lambda: f"unsample of a point {fdist(f,q)} away from {kind} {fmt(f)} gave {geom.unsample(f, q)}", [f, q])
    # points on the extension of an inner piece (of any piece of a closed figure) are not on the figure
    ps = [q for q in pieces(f) if plen(q) > 0]
    inner = [q for i, q in enumerate(ps) if q[0] == 'L' and (closedfig or 0 < i < len(ps) - 1)]
    ends = [] if closedfig else [q for q in (ps[0], ps[-1])]
    for _ in range(2 if inner else 0):
        s = rng.choice(inner)
        t = rng.choice([rng.uniform(-1.5, -.15), rng.uniform(1.15, 2.5)])
        q = peval(s, 0)
        e = peval(s, 1)
        q = [q[i] + t * (e[i] - q[i]) for i in range(3)] + [1.0]
        near = fdist(f, q) < .1
        for pc in ends:
            if pc[0] == 'L':
                a, b = pc[1], pc[2]
                near = near or abs((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) / plen(pc) < 0.02
            else:
                near = near or abs(d2(pc[1], q) - pc[2]) < .02
        if not near:
            ctx.ev("extensions")
            ctx.check(geom.unsample(f, q) is False, "unsample-extension", lambda: f"unsample gave {geom.unsample(f, q)} for {fmt(q)} on the extension of {fmt(s[1])}..{fmt(s[2])} of {kind} {fmt(f)}", [f, q])
    # slices
    if sliceable:
        for _ in range(3):
            a, b = sorted([rng.random(), rng.random()]) if rng.random() < 0.8 else (0.0, rng.uniform(0.3, 1)) if rng.random() < 0.5 else (rng.random() * 0.7, 1.0)
            if closedfig and b == 1.0:
                b = 0.999
            if (b - a) * L < 0.05:
                continue
            seg = geom.segment(f, a, b)
            cmp_curve(ctx, f, seg, lambda t: rsample(f, a + (b - a) * t), (b - a) * L, tol, f"segment({a},{b}) of {kind}")
    # box
    bb = geom.bbox(f)
    lo, hi = pbox(pieces(f))
    ctx.ev("boxes")
    ctx.check(all(abs(bb[0][i] - lo[i]) < tol and abs(bb[1][i] - hi[i]) < tol for i in range(3)), "bbox",
              lambda: f"bbox of {kind} {fmt(f)} = {fmt(bb)} expected {lo} {hi}", f)
    ctx.check(keep == f, "mutated", lambda: f"a query modified the {kind} {fmt(keep)} -> {fmt(f)}")


def cmp_curve(ctx, f, seg, want, wl, tol, what):
    ctx.ev("segments")
    gl = geom.length(seg)
    if not ctx.check(abs(gl - wl) < 1e-4 + 1e-4 * wl, "segment-length", lambda: f"{what}: length {gl} expected {wl} of {fmt(f)}", f):
        return
    for t in (0.0, 0.21, 0.5, 0.83, 0.999):
        g = geom.sample(seg, t)
        if not close(g, want(t), 5e-4 + tol):
            ctx.viol("segment", f"{what}: sample({t}) {fmt(g)} expected {fmt(want(t))} of {fmt(f)} -> {fmt(seg)}", [f, seg])
            return


def g_line(ctx, rng):
    z = rng.choice([0, 0, 3.5])
    f = rline(rng, 10, z)
    if rng.random() < 0.4:
        f[1][2] += rng.uniform(-4, 4)      # 3D line
    common(ctx, rng, "line", f, False)
    for u in (-1.3, 2.2):
        ctx.check(close(geom.sample(f, u), rsample(f, u), 1e-5), "extrapolate", f"line sample({u})")
        g = geom.unsample(f, rsample(f, u))
        ctx.check(abs(g - u) < 1e-4, "extrapolate", lambda: f"line unsample(sample({u}))={g} {fmt(f)}")
    c = geom.center(f)
    ctx.check(close(c, rsample(f, 0.5), 1e-6), "center", lambda: f"line center {c}")
    a, b = rng.random(), rng.random()
    if a > b and a - b > 0.02:
        s = geom.segment(f, a, b)
        cmp_curve(ctx, f, s, lambda t: rsample(f, a + (b - a) * t), (a - b) * rlen(f), 1e-5, "reversed line segment")


def g_arc(ctx, rng):
    z = rng.choice([0, 0, 3.5])
    f = rarc(rng, 10, z)
    circ = is_circle(f)
    common(ctx, rng, "circle" if circ else "arc", f, circ)
    ctx.check(bool(geom.iscircle(f)) == circ, "iscircle", lambda: f"iscircle({fmt(f)})")
    c = geom.center(f)
    want = f[0] if circ else rsample(f, 0.5)
    ctx.check(close(c, want, 1e-5), "center", lambda: f"arc center {c} expected {want} {fmt(f)}")
    r = geom.reverseGeomList([f])[0]
    for u in (0.0, 0.3, 1.0):
        ctx.check(close(geom.sample(r, u), rsample(f, 1 - u), 1e-5), "reverse", lambda: f"reversed arc sample({u}) of {fmt(f)}")
    rr = geom.reverseGeomList([r])[0]
    ctx.check(close(geom.sample(rr, 0.3), rsample(f, 0.3), 1e-5), "reverse", lambda: f"double reversal of {fmt(f)}")


def g_poly(ctx, rng):
    z = rng.choice([0, 0, 3.5])
    if rng.random() < 0.5:
        f = ropenpoly(rng, 10, z)
        if rng.random() < 0.3:
            k = rng.randrange(len(f))
            f.insert(k, list(f[k]))       # repeated vertex (zero-length member)
        common(ctx, rng, "polyline", f, False)
        ctx.check(close(geom.center(f), rsample(f, 0.5), 1e-5), "center", lambda: f"polyline center {fmt(f)}")
        a, b = rng.random(), rng.random()
        if a > b and a - b > 0.02:
            s = geom.segment(f, a, b)
            cmp_curve(ctx, f, s, lambda t: rsample(f, a + (b - a) * t), (a - b) * rlen(f), 1e-5, "reversed polyline segment")
        if d2(f[0], f[1]) > 0 and d2(f[-1], f[-2]) > 0:
            for u in (-0.2, 1.3):
                L = rlen(f)
                ctx.check(close(geom.sample(f, u), rsample(f, u), 1e-4), "extrapolate", lambda: f"polyline sample({u}) {geom.sample(f,u)} expected {rsample(f,u)} of {fmt(f)}")
    else:
        f = closed(rstar(rng, z=z))
        common(ctx, rng, "polygon", f, True)
        n = len(f) - 1
        want = [sum(p[i] for p in f[:-1]) / n for i in range(3)]
        ctx.check(close(geom.center(f), want, 1e-5), "center", lambda: f"polygon center {geom.center(f)} expected {want} {fmt(f)}")
        for u in (1.3, -0.4, 2.75):
            ctx.check(close(geom.sample(f, u), rsample(f, u % 1.0), 1e-4), "wrap", lambda: f"polygon sample({u}) of {fmt(f)}")
        a, b = rng.uniform(0.55, 0.98), rng.uniform(0.02, 0.45)
        s = geom.segment(f, a, b)     # wraps through the seam
        cmp_curve(ctx, f, s, lambda t: rsample(f, (a + (1 - a + b) * t) % 1.0), (1 - a + b) * rlen(f), 1e-3, "wrapping polygon segment")


def g_list(ctx, rng):
    z = rng.choice([0, 0, 3.5])
    k = rng.random()
    if k < 0.4:
        f = rclosedlist(rng, z=z)
        cl = True
    elif k < 0.8:
        f = ropenlist(rng, z=z)
        cl = False
    else:
        f = [ropenlist(rng, z=z)]
        e = rsample(f, 1.0)
        q = rpt(rng, 10, z)
        f.append([e, q])
        cl = False
    zero = False
    if rng.random() < 0.3:
        i = rng.choice([0, len(f)])
        p = rsample(f, 0.0 if i == 0 else 1.0)
        f.insert(i, list(p))            # point members are ignored for sampling
        zero = True
    common(ctx, rng, "closed list" if cl else "open list", f, cl, sliceable=True)
    if not zero:
        ctx.check(geom.iscontinuousgeomlist(f) is True, "continuous", lambda: f"iscontinuousgeomlist false for {fmt(f)}")
        ctx.check(bool(geom.isclosedgeomlist(f)) == cl, "closed", lambda: f"isclosedgeomlist({fmt(f)}) != {cl}")
        g = copy.deepcopy(f)
        if len(g) > 2:
            x = g.pop(1)
            gap = d3(rsample(g[0], 1.0), rsample(g[1], 0.0))
            if gap > 0.01:
                ctx.check(geom.iscontinuousgeomlist(g) is False and geom.isclosedgeomlist(g) is False, "continuous", lambda: f"gap not noticed in {fmt(g)}")
                ctx.ev("gaps")
        r = geom.reverseGeomList(f)
        for u in (0.0, 0.18, 0.5, 0.77, 1.0):
            ctx.check(close(geom.sample(r, u), rsample(f, 1 - u), 1e-4), "reverse", lambda: f"reversed list sample({u}) = {geom.sample(r,u)} expected {rsample(f,1-u)} of {fmt(f)}")
        if cl:
            a, b = rng.uniform(0.55, 0.98), rng.uniform(0.02, 0.45)
            s = geom.segmentgeomlist(f, a, b, closed=True)
            cmp_curve(ctx, f, s, lambda t: rsample(f, (a + (1 - a + b) * t) % 1.0), (1 - a + b) * rlen(f), 1e-3, "wrapping list segment")
        a, b = sorted([rng.random(), rng.random()])
        if b - a > 0.05:
            s = geom.segmentgeomlist(f, a, b, reverse=True)
            cmp_curve(ctx, f, s, lambda t: rsample(f, b - (b - a) * t), (b - a) * rlen(f), 1e-4, "reversed list segment")


def g_box(ctx, rng):
    """the box of a (nested) list of figures of any kind is the union of its members' boxes and covers them"""
    R = rng.uniform
    p = lambda: geom.point(R(-9, 9), R(-9, 9))

    def leaf():
        k = rng.randrange(10)
        if k == 0:
            return p()
        if k == 1:
            return rline(rng, 10, 0)
        if k == 2:
            return rarc(rng, 10, 0)
        if k == 3:
            return ropenpoly(rng, 10, 0)
        if k in (4, 5):
            b = R(.3, 3)
            return geom.ellipse(p(), b * R(1, 3), b, rotation=R(0, 360), **rng.choice([{}, dict(start=R(0, 180), end=R(181, 350))]))
        if k == 6:
            return geom.parabola(p(), R(.2, 3), rotation=R(0, 360), start=R(-5, 0), end=R(.1, 5))
        if k == 7:
            return geom.hyperbola(p(), R(.2, 3), R(.2, 3), rotation=R(0, 360), start=R(-2, 0), end=R(.1, 2), branch=rng.choice([1, -1]))
        pts = [p() for _ in range(rng.randint(4, 7))]
        return geom.catmullrom(pts, closed=rng.random() < .5) if k == 8 else geom.nurbs(pts, degree=3)
    leaves = []

    def tree(d, n):
        out = []
        for _ in range(n):
            if d < 3 and rng.random() < .25:
                out.append(tree(d + 1, rng.choice([1, 2, 3, 9, 12])))
            else:
                x = leaf()
                leaves.append(x)
                out.append(x)
        return out
    f = tree(0, rng.choice([1, 2, 4, 9, 14]))
    if geom.ispoly(f) or geom.isline(f) or not leaves or not geom.isgeomlist(f):
        return
    keep = copy.deepcopy(f)
    ctx.case([fmt(f)])
    ctx.ev("lists_boxed")
    if len(leaves) > 8:
        ctx.ev("big_lists")
    bb = geom.bbox(f)
    smooth = lambda x: geom.ispoint(x) or geom.isline(x) or geom.isarc(x) or geom.ispoly(x) or geom.isellipse(x) or geom.isparabola(x) or geom.ishyperbola(x)
    exact = lambda x: smooth(x) and not (geom.isellipse(x) or geom.isparabola(x) or geom.ishyperbola(x))
    tol = 1e-5 if all(exact(x) for x in leaves) else .03 if all(smooth(x) for x in leaves) else .25     # boxes of conics and splines are sampled
    bs = [geom.bbox(x) for x in leaves]
    for i in range(2):
        lo, hi = min(b[0][i] for b in bs), max(b[1][i] for b in bs)
        ctx.check(abs(bb[0][i] - lo) < tol and abs(bb[1][i] - hi) < tol, "bbox-list", lambda: f"box {fmt(bb)} of a list of {len(leaves)} figures whose boxes span {lo}..{hi} on axis {i}", f)
    x = rng.choice(leaves)
    if not geom.ispoint(x):
        for _ in range(4):
            q = geom.sample(x, rng.random())
            if not all(bb[0][i] - tol <= q[i] <= bb[1][i] + tol for i in range(2)):
                ctx.viol("bbox-cover", f"box {fmt(bb)} does not hold the point {fmt(q)} of its member {str(x)[:200]}", f)
    ctx.check(f == keep, "mutated", "bbox modified the list", f)


def g_print(ctx, rng):
    """vstr prints figures of any size, leaving out z=0 and w=1"""
    def v(p):
        if abs(p[3] - 1) > 5e-7:
            return f"[{p[0]}, {p[1]}, {p[2]}, {p[3]}]"
        return f"[{p[0]}, {p[1]}, {p[2]}]" if abs(p[2]) > 5e-6 else f"[{p[0]}, {p[1]}]"
    def mk(d):
        n = rng.choice([1, 2, 3, 5, rng.randint(900, 2500)] if d < 2 else [1, 2, 3])
        big = n > 5
        return [[rng.choice([rng.uniform(-5, 5), rng.randint(-3, 3)]), rng.uniform(-5, 5), rng.choice([0, 0, rng.uniform(1, 2)]), rng.choice([1, 1, 2.0])] if big or d >= 3 or rng.random() < .6 else mk(d + 1) for _ in range(n)]
    def ref(f):
        return v(f) if not isinstance(f[0], list) else "[" + ", ".join(ref(x) for x in f) + "]"
    f = mk(0)
    ctx.case([len(f), str(f[0])[:60]])
    ctx.check(geom.vstr(f) == ref(f), "print", lambda: f"vstr gives {geom.vstr(f)[:80]} for {ref(f)[:80]}")
    bad = rng.choice([[], [[]], [1, "a"], "x", None, [[1.0, 2.0, 3.0, 1.0], []], [[1.0, 2.0, 3.0, 1.0], "q"]])
    ctx.check(geom.vstr(bad) == str(bad), "print", lambda: f"vstr({bad}) = {geom.vstr(bad)!r}")
    ctx.ev("printed")


GROUPS = {"box": (g_box, 300, 4000), "print": (g_print, 300, 2000), "line": (g_line, 1500, 15000), "arc": (g_arc, 3000, 30000), "poly": (g_poly, 2000, 20000), "list": (g_list, 2000, 20000)}
if __name__ == "__main__":
    vf.main(globals())
