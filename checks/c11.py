import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math
import vf

PROP = "C11"
LEVEL = "exploration"
META = dict(
    title="Spatial index: octree and quadtree queries are exact",
    statement="NTree.getElements returns, for every query box, exactly the stored elements whose bounding box overlaps that box, each once and with its tag, in 3D for octrees and in 2D for quadtrees, for any number, size, clustering and order of insertion of elements, including elements added after earlier queries, elements straddling cell boundaries, degenerate (flat, point-sized, collinear) layouts, any mindim and maxdepth, and an empty tree; it never modifies the caller's list. boxoverlap and boxoverlap2 are exact and symmetric interval tests in 2D and 3D. box2boxes partitions a box into 4 or 8 cells that cover it, and bbox2quad/bbox2oct assign a box to exactly the cells it overlaps. surface_octree finds every triangle of a surface touching a query box.",
    over=["inputs", "histories"], q="for all element sets, insertion histories, tree parameters and query boxes",
    why="Tests insert one scripted layout and inspect it; a lost element depends on where its box falls relative to the split planes at every level.",
    files=["src/yapcad/octtree.py", "src/yapcad/boolean/native.py"],
    mech=[("NTree, boxoverlap, boxoverlap2, bbox2quad, bbox2oct, box2boxes", "src/yapcad/octtree.py"), ("surface_octree", "src/yapcad/boolean/native.py")],
    technique="online reference-model monitor: every query of an insert/query history compared with a brute-force interval scan",
    note="Exploration; coordinates continuous or on a lattice (exact touching included for the box tests; index queries avoid boxes touching within 1e-9).",
)
RULE = "random element clouds of 0-150 lines, points lists, polygons or triangles (uniform, clustered, lattice, flat), random insert/query interleavings, tree parameters and query boxes; distinct by element set and query"
REQUIRE = {"queries": 3000, "hits": 10000, "box_pairs": 20000, "history_inserts": 2000, "partitions": 500, "surface_queries": 200}


def init():
    global g, o, g3, u, nat
    from yapcad import geom as g, octtree as o, geom3d as g3, geom3d_util as u
    from yapcad.boolean import native as nat


def ov(a, b, n):
    return all(a[0][k] <= b[1][k] and b[0][k] <= a[1][k] for k in range(n))


def margin(a, b, n):
    return min(min(abs(a[0][k] - b[1][k]), abs(b[0][k] - a[1][k])) for k in range(n))


def coord(rng, lat):
    return float(rng.randint(-6, 6)) if lat else rng.uniform(-20, 20)


def rbox(rng, lat=False, flat=False):
    c = [coord(rng, lat) for _ in range(3)]
    d = [abs(coord(rng, lat)) * rng.choice([1, .1 if not lat else 1]) for _ in range(3)]
    if flat:
        d[rng.randrange(3)] = 0.0
    return [g.point(*c), g.point(*[x + y for x, y in zip(c, d)])]


def boxes(ctx, rng):
    lat = rng.random() < .6
    for _ in range(30):
        a, b = rbox(rng, lat, rng.random() < .1), rbox(rng, lat, rng.random() < .1)
        for d3 in (True, False):
            w = ov(a, b, 3 if d3 else 2)
            ctx.ev("box_pairs")
            if margin(a, b, 3) < 1e-9 and not lat:
                continue
            for f in (o.boxoverlap2, o.boxoverlap):
                if lat and f is o.boxoverlap2 and margin(a, b, 3 if d3 else 2) == 0 and any(a[1][k] == a[0][k] or b[1][k] == b[0][k] for k in range(3)):
                    continue
                ctx.check(bool(f(a, b, d3)) == w and bool(f(b, a, d3)) == w, f.__name__, lambda: f"{f.__name__}({a},{b},dim3={d3}) = {f(a,b,d3)}/{f(b,a,d3)}, intervals say {w}")
    ctx.case([a, b])


def partition(ctx, rng):
    ctx.ev("partitions")
    n = rng.choice([4, 8])
    b = rbox(rng)
    if min(b[1][k] - b[0][k] for k in range(3)) < .05:
        return
    if n == 4:
        b[0][2] = b[1][2] = 0.0
    c = g.point(*[b[0][k] + (b[1][k] - b[0][k]) * rng.choice([.5, rng.uniform(.1, .9)]) for k in range(3)])
    cells = o.box2boxes(b, c, n)
    ctx.case([n, b, c])
    if not ctx.check(len(cells) == n, "partition:count", f"{len(cells)} cells"):
        return
    D = 3 if n == 8 else 2
    vol = lambda x: math.prod(x[1][k] - x[0][k] for k in range(D))
    ctx.check(abs(sum(vol(x[0]) for x in cells) - vol(b)) < 1e-9 * (1 + vol(b)), "partition:volume", lambda: f"cells of {b} at {c} do not cover it")
    for x, m in cells:
        ctx.check(all(abs(m[k] - (x[0][k] + x[1][k]) / 2) < 1e-9 for k in range(D)), "partition:center", f"cell {x} center {m}")
        ctx.check(all(b[0][k] - 1e-9 <= x[0][k] <= x[1][k] <= b[1][k] + 1e-9 for k in range(D)), "partition:inside", f"cell {x} leaves {b}")
    for _ in range(10):
        q = [[rng.uniform(b[0][k], b[1][k]) for k in range(3)] for _ in range(2)]
        q = [g.point(*[min(q[0][k], q[1][k]) for k in range(3)]), g.point(*[max(q[0][k], q[1][k]) for k in range(3)])]
        if rng.random() < .3:
            q[1] = list(q[0])
        f = o.bbox2oct if n == 8 else o.bbox2quad
        got = set(f(q, q, c))
        want = {i for i, (x, _) in enumerate(cells) if ov(x, q, D)}
        # numbering contract: cell i of the split is index i
        ctx.check(want <= got and len(f(q, q, c)) == len(got), "partition:assign", lambda: f"box {q} assigned to cells {got}, overlaps {want} (center {c})")
        ctx.check(got <= want or min(abs(q[j][k] - c[k]) for j in (0, 1) for k in range(D)) < 1e-9, "partition:over", lambda: f"box {q} assigned to cells {got}, overlaps {want}")


def element(rng, layout, n, cs):
    D = 3 if n == 8 else 2
    if layout == "cluster":
        c = rng.choice(cs)
        p = [c[k] + rng.gauss(0, .3) for k in range(D)]
    elif layout in ("lattice", "grid"):
        p = [float(rng.randint(-8, 8)) for _ in range(D)]
    elif layout == "flat":
        p = [rng.uniform(-20, 20), rng.uniform(-20, 20), 0.0][:D]
        if n == 4:
            p[1] = 0.0
    else:
        p = [rng.uniform(-20, 20) for _ in range(D)]
    s = rng.choice([.01, 1, 8, 30])
    q = lambda: [x + (rng.uniform(-s, s) if layout != "lattice" else rng.randint(-4, 4)) if not (layout == "flat" and i == D - 1) else x for i, x in enumerate(p)]
    if layout == "grid":
        # flat elements lying in the planes the tree splits at
        m = [rng.randint(0, 2) for _ in range(D)]
        if rng.random() < .5:
            p[rng.randrange(D)] = float(rng.choice([0, 0, 4, -4, 2, 6]))
        q = lambda: [x + (0 if not m[i] else rng.randint(-2, 2)) for i, x in enumerate(p)]
    k = rng.random()
    if k < .5:
        e = [g.line(g.point(*p), g.point(*q()))]
    elif k < .8:
        e = [g.point(*p), g.point(*q()), g.point(*q()), g.point(*p)]
    elif k < .9:
        e = [g.point(*p), g.point(*q())]
    else:
        e = [[g.point(*p), g.point(*q()), g.point(*q())], g.line(g.point(*p), g.point(*q()))]
    return e


def ptsof(e):
    if isinstance(e, list) and len(e) == 4 and not isinstance(e[0], list):
        yield e
    else:
        for x in e:
            yield from ptsof(x)


def ebox(e):
    P = list(ptsof(e))
    return [[min(p[k] for p in P) for k in range(3)], [max(p[k] for p in P) for k in range(3)]]


def history(ctx, rng):
    n = rng.choice([4, 8])
    D = 3 if n == 8 else 2
    layout = rng.choice(["uniform", "uniform", "cluster", "lattice", "grid", "grid", "flat"])
    cs = [[rng.uniform(-20, 20) for _ in range(3)] for _ in range(rng.randint(1, 4))]
    kw = dict(n=n)
    if rng.random() < .6:
        kw["mindim"] = rng.choice([.1, .5, 4.0, 50])
    if rng.random() < .4:
        kw["maxdepth"] = rng.choice([1, 2, 5, 8])
    model = []
    init_list = None
    if rng.random() < .5:
        model = [(element(rng, layout, n, cs), i) for i in range(rng.randint(0, 80))]
        tagged = rng.random() < .7
        init_list = [m if tagged else m[0] for m in model]
        if not tagged:
            model = [(e, None) for e, _ in model]
        t = o.NTree(geom=init_list, **kw)
        snap = repr(init_list)
    else:
        t = o.NTree(**kw)
    tag = 1000
    if layout == "grid" and init_list is None:
        e = [g.line(g.point(*[-8.0] * D), g.point(*[8.0] * D))]
        t.addElement(e, 1)
        model.append((e, 1))
    steps = rng.randint(1, 8)
    for st in range(steps):
        if rng.random() < .5 or st == 0 and not model and rng.random() < .8:
            for _ in range(rng.randint(1, 40)):
                e = element(rng, layout, n, cs)
                tag += 1
                if rng.random() < .8:
                    t.addElement(e, tag)
                    model.append((e, tag))
                else:
                    t.addElement(e)
                    model.append((e, None))
                ctx.ev("history_inserts")
        if rng.random() < .15:
            t.mindim = rng.choice([.3, 2.0])
            t.maxdepth = rng.choice([2, 6])
        for _ in range(rng.randint(1, 6)):
            if model and rng.random() < .3:
                b = ebox(rng.choice(model)[0])
                pad = rng.choice([1e-3, -1e-3, 1])
                q = [g.point(*[x - pad for x in b[0]]), g.point(*[x + pad for x in b[1]])]
                if any(q[0][k] > q[1][k] for k in range(3)):
                    continue
            else:
                q = rbox(rng)
            if n == 4 and rng.random() < .5:
                q[0][2] = q[1][2] = 0.0
            bx = [ebox(e) for e, _ in model]
            if any(margin(x, q, D) < 1e-9 for x in bx):
                continue
            want = [m for m, x in zip(model, bx) if ov(x, q, D)]
            got = t.getElements(q)
            ctx.ev("queries")
            ctx.ev("hits", len(want))
            gk = sorted(repr((x if isinstance(x, tuple) else (x, None))) for x in got)
            wk = sorted(repr(x) for x in want)
            if gk != wk:
                miss = [x for x in wk if x not in gk]
                return ctx.viol("query:missing" if miss else "query:extra", f"NTree({kw}) with {len(model)} {layout} elements: query {q} returned {len(gk)} elements, brute force {len(wk)}; first difference {(miss or [x for x in gk if x not in wk] or gk)[0][:300]}")
    if init_list is not None:
        ctx.check(repr(init_list) == snap, "mutates-list", "NTree changed the list passed as geom")
    ctx.case([kw, layout, len(model), repr(model[:2])])


def surfq(ctx, rng):
    c = g.point(*[rng.uniform(-5, 5) for _ in range(3)])
    s = rng.choice([lambda: u.sphere(rng.uniform(2, 10), c, depth=2), lambda: u.conic(rng.uniform(1, 5), rng.uniform(1, 5), 6, c, angr=20), lambda: u.tube(8, 1, 6, base_point=c, minang=15)])()
    surf = max(s[1], key=lambda x: len(x[3]))
    T = [[surf[1][i] for i in f] for f in surf[3]]
    t = nat.surface_octree(surf, rebuild=rng.random() < .3)
    ctx.case([c, len(T)])
    for _ in range(6):
        q = [g.point(*[x + rng.uniform(-6, 2) for x in c[:3]])]
        q.append(g.point(*[x + rng.uniform(.1, 6) for x in q[0][:3]]))
        want = [i for i, x in enumerate(T) if ov(ebox(x), q, 3) and margin(ebox(x), q, 3) > 1e-7]
        got = t.getElements(q) if t is not None else None
        ctx.ev("surface_queries")
        if got is None:
            return ctx.viol("surface:none", "surface_octree returned None for a populated surface")
        keys = {tuple(sorted(tuple(round(v, 6) for v in p[:3]) for p in (x[0] if isinstance(x, tuple) else x)[:3])) for x in got}
        miss = [i for i in want if tuple(sorted(tuple(round(v, 6) for v in p[:3]) for p in T[i])) not in keys]
        ctx.check(not miss, "surface:missing", lambda: f"surface_octree query {q} lost {len(miss)} of {len(want)} triangles")


GROUPS = {"boxes": (boxes, 800), "partition": (partition, 800), "history": (history, 500), "surfq": (surfq, 60)}
if __name__ == "__main__":
    vf.main(globals())
