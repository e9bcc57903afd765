import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import math, copy
import vf
from gen2d import *
from c03 import ref_all, Degenerate

PROP = "C05"
LEVEL = "exploration"
META = dict(
    title="2D boolean operations compute the set operation they name",
    statement="For closed simple figures in general position (circles, polygons, arc-edged outlines; crossing any number of times, nested, or disjoint), the union, intersection and difference produced by Boolean figure objects for operands of any orientation, and by the geometry-list combination function for counter-clockwise operands, is a closed figure that contains exactly the points the set operation contains, up to the tessellation tolerance of curved operands. The same holds for polygons drawn on a common grid, whose outlines share edges, parts of edges or vertices, or only touch. Every edge of the result lies on the boundary of an operand, operands are not modified, and chains of operands combine left to right, including intermediate results made of several loops.",
    over=["inputs"], q="for all pairs (and convex chains) of closed simple figures in general position (polygons: also aligned) and all query points off the boundaries",
    why="Tests combine a few squares and circles; orientation, nesting, multi-crossing outlines and starting vertex all change which segments are stitched.",
    files=["src/yapcad/geom_util.py", "src/yapcad/combine.py", "src/yapcad/geom.py"],
    mech=[("combineglist", "src/yapcad/geom_util.py"), ("Boolean.geom", "src/yapcad/combine.py")],
    technique="pointwise set-membership monitor against an independent crossing-number oracle",
    note="Exploration; membership judged at 60 sampled points per case (grid of random + near-boundary points), boundary inclusion at sampled result points.",
)
RULE = "random pairs of circles/convex/star/arc-edged figures with random overlap; distinct by operands and operation; polygon pairs on one lattice with shared edges and vertices; degenerate (near-tangent) curved pairs skipped"
REQUIRE = {"membership": 20000, "op:union": 200, "op:intersection": 200, "op:difference": 200, "crossing": 300, "nested": 60, "disjoint": 60, "shared_edge": 150, "shared_vertex": 100}
OPS = ['union', 'intersection', 'difference']


def init():
    global geom, geometry, geom_util, combine, polymod
    from yapcad import geom, geometry, geom_util, combine
    from yapcad import poly as polymod


def shape(rng, kind, c, s, cw):
    if kind == 'circle':
        return [c, [s * rng.uniform(0.5, 1), 0, 360, -1]]
    if kind == 'rect':
        w, h = s * rng.uniform(0.4, 1), s * rng.uniform(0.4, 1)
        v = [P(c[0] - w, c[1] - h), P(c[0] + w, c[1] - h), P(c[0] + w, c[1] + h), P(c[0] - w, c[1] + h)]
    elif kind == 'convex':
        n, a0 = rng.randint(3, 8), rng.uniform(0, TAU)
        v = [P(c[0] + s * math.cos(a0 + i * TAU / n), c[1] + s * math.sin(a0 + i * TAU / n)) for i in range(n)]
    elif kind == 'star':
        v = rstar(rng, c=c, s=s, cw=False, n=rng.randint(3, 10))
    else:
        l = rclosedlist(rng, c=c, s=s, cw=False)
        k = rng.randrange(len(l))
        l = l[k:] + l[:k]
        return geom_reverse(l) if cw else l
    k = rng.randrange(len(v))
    v = v[k:] + v[:k]
    if cw:
        v.reverse()
    return closed(v)


def geom_reverse(l):
    out = []
    for e in reversed(l):
        if is_line(e):
            out.append([e[1], e[0]])
        else:
            out.append([e[0], [e[1][0], e[1][1], e[1][2], -1 if e[1][3] == -2 else -2]])
    return out


def setup(rng, anycw):
    ks = [rng.choice(['circle', 'rect', 'convex', 'star', 'star', 'list']) for _ in range(2)]
    m = rng.random()
    c1 = P(rng.uniform(-3, 3), rng.uniform(-3, 3))
    if m < 0.7:
        c2, s1, s2 = P(c1[0] + rng.uniform(-4, 4), c1[1] + rng.uniform(-4, 4)), rng.uniform(2.5, 5), rng.uniform(2.5, 5)
    elif m < 0.85:
        c2, s1, s2 = P(c1[0] + rng.uniform(-.5, .5), c1[1] + rng.uniform(-.5, .5)), 6.0, rng.uniform(0.6, 1.0)
        if rng.random() < 0.5:
            s1, s2 = s2, s1
    else:
        a = rng.uniform(0, TAU)
        c2, s1, s2 = P(c1[0] + 11 * math.cos(a), c1[1] + 11 * math.sin(a)), rng.uniform(2, 5), rng.uniform(2, 5)
    f = shape(rng, ks[0], c1, s1, anycw and rng.random() < 0.5)
    g = shape(rng, ks[1], c2, s2, anycw and rng.random() < 0.5)
    pts = ref_all(f, g)       # may raise Degenerate
    for i in range(len(pts)):
        for j in range(i):
            if d2(pts[i], pts[j]) < 0.05:
                raise Degenerate
    if len(pts) % 2:
        raise Degenerate
    return ks, f, g, len(pts)


def want(op, a, b):
    return {'union': a or b, 'intersection': a and b, 'difference': a and not b}[op]


def verify(ctx, rng, op, figs, res, ks, ncross, margin, label):
    lo = [min(pbox(pieces(f))[0][i] for f in figs) - 0.5 for i in range(2)]
    hi = [max(pbox(pieces(f))[1][i] for f in figs) + 0.5 for i in range(2)]
    ctx.ev("op:" + op)
    ctx.case((label, op, [fmt(f) for f in figs]))
    ends = [peval(p, t) for f in figs for p in pieces(f) for t in (0.5,)]
    for i in range(60):
        if i < 40:
            q = P(rng.uniform(lo[0], hi[0]), rng.uniform(lo[1], hi[1]))
        else:
            e = rng.choice(ends)
            q = P(e[0] + rng.uniform(-.4, .4), e[1] + rng.uniform(-.4, .4))
        if min(fdist(f, q) for f in figs) < margin:
            continue
        ins = [winding_inside(f, q) for f in figs]
        w = ins[0]
        for b in ins[1:]:
            w = want(op, w, b)
        got = winding3(res, q) if res else False
        ctx.ev("membership")
        if got != w:
            return ctx.viol("membership:" + label, f"{label} {op} of {ks}: point {fmt(q)} {'in' if got else 'out'} but should be {'in' if w else 'out'}; operands {[fmt(f) for f in figs]} result {fmt(res)}", figs)
    for p in pieces(res):
        q = peval(p, 0.5)
        ctx.ev("boundary_points")
        if min(fdist(f, q) for f in figs) > margin:
            return ctx.viol("stray-edge:" + label, f"{label} {op} of {ks}: result edge through {fmt(q)} is on no operand boundary; operands {[fmt(f) for f in figs]}", figs)
    # closed: every end point is met an even number of times
    ends = [peval(p, t) for p in pieces(res) if p[0] != 'P' and plen(p) > 1e-3 and not (p[0] == 'A' and abs(abs(p[4]) - TAU) < 1e-9) for t in (0, 1)]
    for e in ends:
        n = sum(1 for x in ends if d2(x, e) < 2e-3)
        if n < 2:
            return ctx.viol("open-result:" + label, f"{label} {op} of {ks}: dangling end {fmt(e)}; operands {[fmt(f) for f in figs]} result {fmt(res)}", figs)


def g_list(ctx, rng):
    try:
        ks, f, g, n = setup(rng, False)
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    ctx.ev("crossing" if n else "nested" if (winding_inside(f, peval(pieces(g)[0], 0)) or winding_inside(g, peval(pieces(f)[0], 0))) else "disjoint")
    op = rng.choice(OPS)
    F = [f] if is_arc(f) else f
    G = [g] if is_arc(g) else g
    fk, gk = copy.deepcopy(F), copy.deepcopy(G)
    r = geom_util.combineglist(F, G, op)
    ctx.check(F == fk and G == gk, "mutated", "combineglist modified an operand")
    verify(ctx, rng, op, [f, g], r, ks, n, 0.01, "combineglist")


def make_obj(rng, f):
    if is_poly(f) and rng.random() < 0.5:
        return polymod.Polygon([list(p) for p in f[:-1]])
    if is_arc(f) and rng.random() < 0.5:
        return polymod.Circle(f[0], f[1][0])
    return geometry.Geometry(f)


def g_obj(ctx, rng):
    try:
        ks, f, g, n = setup(rng, True)
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    ctx.ev("crossing" if n else "nested" if (winding_inside(f, peval(pieces(g)[0], 0)) or winding_inside(g, peval(pieces(f)[0], 0))) else "disjoint")
    op = rng.choice(OPS)
    a, b = make_obj(rng, f), make_obj(rng, g)
    ga, gb = copy.deepcopy(a.geom), copy.deepcopy(b.geom)
    B = combine.Boolean(op, [a, b], minlen=0.1)
    r = B.geom
    verify(ctx, rng, op, [f, g], r, ks, n, 0.06, "Boolean")
    ctx.check(a.geom == ga and b.geom == gb, "mutated", "Boolean modified its operand objects")
    ctx.check(B.geom == r, "unstable", "second read of Boolean.geom differs")
    if r and op != 'difference' and n == 2:
        ctx.ev("area_balance")


def lattice_figure(rng):
    """a simple counter-clockwise polygon on whole coordinates, without straight-through vertices"""
    n = lambda v, i: (v[i][0] - v[i - 1][0]) * (v[(i + 1) % len(v)][1] - v[i][1]) - (v[i][1] - v[i - 1][1]) * (v[(i + 1) % len(v)][0] - v[i][0])
    while True:
        k = rng.random()
        if k < 0.4:
            x, y, w, h = rng.randint(0, 4), rng.randint(0, 4), rng.randint(1, 4), rng.randint(1, 4)
            v = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        elif k < 0.8:
            x, y, v = rng.randint(-3, 3), rng.randint(-3, 2), []
            m = rng.randint(2, 4)
            hs = [rng.randint(1, 4) for _ in range(m)]
            for i, h in enumerate(hs):
                v += [(x + i, y + h), (x + i + 1, y + h)]
            v = [(x, y)] + v + [(x + m, y)]
            v = [q for i, q in enumerate(v) if q != v[i - 1]]
        else:
            c, d = (rng.randint(-2, 3), rng.randint(-2, 3)), [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]
            v = [(c[0] + a * r, c[1] + b * r) for a, b in d for r in [rng.randint(1, 4)]]
        v = [P(*q) for q in v]
        v = [q for i, q in enumerate(v) if abs(n(v, i)) > 1e-9]
        if len(v) < 3:
            continue
        if sum(v[i - 1][0] * v[i][1] - v[i][0] * v[i - 1][1] for i in range(len(v))) < 0:
            v.reverse()
        k = rng.randrange(len(v))
        return closed(v[k:] + v[:k])


def g_aligned(ctx, rng):
    """outlines drawn on one grid: shared edges, overlapping edges, shared vertices, corners that only touch"""
    f, g = lattice_figure(rng), lattice_figure(rng)
    if rng.random() < 0.3:
        # slide the second figure until a vertex of each coincide
        a, b = rng.choice(f), rng.choice(g)
        g = [P(q[0] + a[0] - b[0], q[1] + a[1] - b[1]) for q in g]
    if any(d2(p, q) < 1e-9 for p in f for q in g):
        ctx.ev("shared_vertex")
    if any(abs((b[0] - a[0]) * (d[1] - c[1]) - (b[1] - a[1]) * (d[0] - c[0])) < 1e-9 and fdist([c, d], [(a[i] + b[i]) / 2 for i in range(2)] + [0, 1]) < 1e-9
           for a, b in zip(f, f[1:]) for c, d in zip(g, g[1:])):
        ctx.ev("shared_edge")
    op = rng.choice(OPS)
    fk, gk = copy.deepcopy(f), copy.deepcopy(g)
    if rng.random() < 0.5:
        r, label = geom_util.combineglist(f, g, op), "combineglist-aligned"
    else:
        r, label = combine.Boolean(op, [make_obj(rng, f), make_obj(rng, g)], minlen=0.1).geom, "Boolean-aligned"
    ctx.check(f == fk and g == gk, "mutated", "combining modified an operand")
    verify(ctx, rng, op, [f, g], r, "lattice polygons", 0, 0.01, label)


def g_chain(ctx, rng):
    op = rng.choice(['union', 'intersection'])
    c = P(rng.uniform(-3, 3), rng.uniform(-3, 3))
    figs = []
    for i in range(rng.randint(3, 4)):
        d = rng.uniform(0.2, 2.4)
        a = rng.uniform(0, TAU)
        figs.append(shape(rng, rng.choice(['circle', 'rect', 'convex']), P(c[0] + d * math.cos(a), c[1] + d * math.sin(a)), rng.uniform(3.5, 5), rng.random() < 0.5))
    try:
        for i in range(len(figs)):
            for j in range(i):
                p = ref_all(figs[i], figs[j])
                if len(p) % 2 or any(d2(x, y) < 0.1 for k, x in enumerate(p) for y in p[:k]):
                    raise Degenerate
        allp = [x for i in range(len(figs)) for j in range(i) for x in ref_all(figs[i], figs[j])]
        # triple points and holes left by three-way unions are out of the claim
        if any(d2(x, y) < 0.1 for k, x in enumerate(allp) for y in allp[:k]):
            raise Degenerate
        if not all(winding_inside(f, c) for f in figs):
            raise Degenerate
        for i in range(1, len(figs)):     # crossings with the accumulated outline only
            pass
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    objs = [make_obj(rng, f) for f in figs]
    ctx.ev("chains")
    B = combine.Boolean(op, objs, minlen=0.1)
    verify(ctx, rng, op, figs, B.geom, "chain", 0, 0.06, "Boolean-chain")


def g_multi(ctx, rng):
    """operands of any shape and overlap, 3-4 of them, each step folded left to right"""
    op = rng.choice(OPS)
    figs = []
    spread = rng.choice([3, 8, 14])
    for i in range(rng.randint(3, 4)):
        c = P(rng.uniform(-spread, spread), rng.uniform(-spread, spread))
        figs.append(shape(rng, rng.choice(['circle', 'rect', 'convex', 'star']), c, rng.choice([1.5, 4, 7]) * rng.uniform(.8, 1.2), rng.random() < 0.5))
    try:
        allp = []
        for i in range(len(figs)):
            for j in range(i):
                p = ref_all(figs[i], figs[j])
                if len(p) % 2:
                    raise Degenerate
                allp += p
        if any(d2(x, y) < 0.2 for k, x in enumerate(allp) for y in allp[:k]):
            raise Degenerate
        for i in range(len(figs)):
            for v in pieces(figs[i]):
                if min([fdist(g, peval(v, 0)) for g in figs if g is not figs[i]]) < 0.1:
                    raise Degenerate
                if min([d2(v2, peval(v, 0)) for v2 in allp] or [9]) < 0.1:
                    raise Degenerate
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    ctx.ev("multi_chains")
    B = combine.Boolean(op, [make_obj(rng, f) for f in figs], minlen=0.1)
    verify(ctx, rng, op, figs, B.geom, "multi", 0, 0.08, "Boolean-multi")


def general(figs):
    """reference crossings of all pairs; raises Degenerate unless well separated"""
    allp = []
    for i in range(len(figs)):
        for j in range(i):
            p = ref_all(figs[i], figs[j])
            if len(p) % 2:
                raise Degenerate
            allp += p
    if any(d2(x, y) < 0.2 for k, x in enumerate(allp) for y in allp[:k]):
        raise Degenerate
    for i in range(len(figs)):
        for v in pieces(figs[i]):
            if min([fdist(g, peval(v, 0)) for g in figs if g is not figs[i]]) < 0.1:
                raise Degenerate
            if min([d2(v2, peval(v, 0)) for v2 in allp] or [9]) < 0.1:
                raise Degenerate
    return allp


def g_pocket(ctx, rng):
    """a figure in, across or around the notch of a concave one: boxes nest, figures need not"""
    w, h, t = rng.uniform(4, 8), rng.uniform(4, 8), rng.uniform(0.7, 1.2)
    a = rng.uniform(0, TAU) if rng.random() < .5 else rng.randrange(4) * TAU / 4
    o = P(rng.uniform(-3, 3), rng.uniform(-3, 3))
    u = [(0, 0), (w, 0), (w, h), (w - t, h), (w - t, t), (t, t), (t, h), (0, h)]
    R = lambda x, y: P(o[0] + x * math.cos(a) - y * math.sin(a), o[1] + x * math.sin(a) + y * math.cos(a))
    k = rng.randrange(8)
    U = [R(*q) for q in u]
    f = closed(U[k:] + U[:k])
    m = rng.random()
    if m < 0.15:     # the same figure, a little smaller: all along inside its walls
        d = t * rng.uniform(.15, .35)
        v = [R(*q) for q in [(d, d), (w - d, d), (w - d, h - d), (w - t + d, h - d), (w - t + d, t - d), (t - d, t - d), (t - d, h - d), (d, h - d)]]
        k = rng.randrange(8)
        g = closed(v[k:] + v[:k])
        ctx.ev("inset")
    elif m < 0.6:      # inside the notch
        s = min(w - 2 * t, h - t) / 2 * rng.uniform(0.3, 0.85)
        g = shape(rng, rng.choice(['circle', 'rect', 'convex', 'star', 'list']), R(w / 2, (h + t) / 2), s * 0.7, False)
    elif m < 0.8:    # in the solid floor of the U
        g = shape(rng, rng.choice(['circle', 'convex']), R(w * rng.uniform(.3, .7), t / 2), t * 0.3, False)
    else:            # across it
        g = shape(rng, rng.choice(['circle', 'rect', 'convex']), R(w * rng.uniform(0, 1), h * rng.uniform(0, 1)), rng.uniform(1, 3), False)
    try:
        general([f, g])
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    if rng.random() < .5:
        f, g = g, f
    op = rng.choice(OPS)
    ctx.ev("pockets")
    if rng.random() < .6:
        verify(ctx, rng, op, [f, g], geom_util.combineglist([f] if is_arc(f) else f, [g] if is_arc(g) else g, op), "pocket", 0, 0.01, "combineglist-pocket")
    else:
        verify(ctx, rng, op, [f, g], combine.Boolean(op, [make_obj(rng, f), make_obj(rng, g)], minlen=0.1).geom, "pocket", 0, 0.06, "Boolean-pocket")


def g_refold(ctx, rng):
    """the result of one combineglist is an operand of the next"""
    spread = rng.choice([3, 6, 10])
    figs = [shape(rng, rng.choice(['circle', 'circle', 'rect', 'convex', 'star', 'list']), P(rng.uniform(-spread, spread), rng.uniform(-spread, spread)), rng.choice([1.2, 2.5, 5]) * rng.uniform(.8, 1.2), False) for _ in range(3)]
    try:
        general(figs)
    except Degenerate:
        ctx.ev("degenerate_skipped")
        return
    W = [[f] if is_arc(f) else f for f in figs]
    op = rng.choice(OPS)
    ctx.ev("refolds")
    r = geom_util.combineglist(geom_util.combineglist(W[0], W[1], op), W[2], op)
    verify(ctx, rng, op, figs, r, "refold", 0, 0.02, "combineglist-refold")


GROUPS = {"pocket": (g_pocket, 500, 5000), "refold": (g_refold, 500, 5000), "multi": (g_multi, 300, 3000), "list": (g_list, 1200, 12000), "aligned": (g_aligned, 900, 9000), "obj": (g_obj, 400, 4000), "chain": (g_chain, 240, 2400)}
if __name__ == "__main__":
    vf.main(globals())
