import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import numpy as np
import vf

PROP = "C12"
LEVEL = "exploration"
META = dict(
    title="Geometry, Polygon and Boolean objects stay consistent under edit histories",
    statement="After any sequence of translate, rotate, uniform scale, mirror, element assignment and Polygon edits (addPoint, addArc, setPoint, remove, grow) interleaved with queries, every derived value of a Geometry, Polygon or Boolean object (geom, length, center, bbox, sample, unsample, segment, isinsideXY, surface) equals that of a fresh object built from the current elements, whatever was queried or cached before; the transforms move the figure by exactly the affine map asked for (lengths and areas scale accordingly, mirror keeps the area sign unless keepSign=False, solids stay valid solids); the object shares no mutable state with the values it was built from or the values it returns as geom. A Polygon of points and circles listed counter-clockwise at convex positions has the outline of their hull with the mean of those positions as centre, explicit line and arc elements are joined by straight lines into one closed outline, grow(r) offsets it by r and negative growth is refused; Rect, RoundRect and Circle have the requested size and centre. A Boolean of two or three figures in general position contains exactly the points the set operation says, and a bad type, non-closed or missing operand is refused.",
    over=["histories", "inputs"], q="for all figures, edit/query histories and parameters",
    why="Unit tests query once after one edit; stale caches and aliasing only show when a query, an edit and another query follow each other in a particular order.",
    files=["src/yapcad/geometry.py", "src/yapcad/poly.py", "src/yapcad/combine.py"],
    mech=[("Geometry transforms, cached length/center/bbox/surface, elem", "src/yapcad/geometry.py"), ("Polygon outline, grow, edits; Rect, RoundRect, Circle", "src/yapcad/poly.py"), ("Boolean.geom and derived values", "src/yapcad/combine.py")],
    technique="history monitor: after every operation the object is compared with a freshly built twin and with an affine reference model",
    note="Exploration. Transform(matrix) of arcs, non-uniform scale of arcs and BREP-backed solids are not covered. Booleans are tested away from tangencies and coincident edges.",
)
RULE = "random figures of every kind under histories of 2-8 operations with random query interleavings; distinct by history"
REQUIRE = {"edits": 1500, "fresh_compare": 4000, "affine": 800, "hulls": 150, "memberships": 2000, "alias": 200, "refusals": 40, "surfaces": 200, "appended": 30, "constructed": 8, "mixed": 80, "mixed-in": 400}
CASE_LIMIT = 150


def init():
    global g, g3, u, GE, PO, BO, G2, M
    from yapcad import geom as g, geom3d as g3, geom3d_util as u, geometry as GE, poly as PO, combine as BO
    import gen2d as G2, mesh3 as M


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def same(a, b, tol=1e-6):
    if isinstance(a, list) and isinstance(b, list) and a[:1] == ["solid"] == b[:1]:
        a, b = a[1], b[1]       # a metadata dictionary may be attached lazily
    if num(a) and num(b):
        return abs(a - b) <= tol * (1 + abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if hasattr(a, "geom") and hasattr(b, "geom"):
        return same(a.geom, b.geom)
    return a == b


QUERIES = ["geom", "length", "center", "bbox", "sample", "unsample", "segment", "inside", "surface", "flags"]


def query(x, q, r):
    """value or exception class; r = fixed random numbers for this query"""
    try:
        if q in ("geom", "length", "center", "bbox"):
            v = getattr(x, q)
            return copy.deepcopy(v)
        if q == "sample":
            return x.sample(r[0])
        if q == "unsample":
            return x.unsample(x.sample(r[0]))
        if q == "segment":
            a, b = sorted(r[:2])
            return x.segment(a, b)
        if q == "inside":
            return x.isinsideXY(g.point(r[2] * 20 - 10, r[3] * 20 - 10))
        if q == "surface":
            ang = [5.0, 10.0][r[0] < .5]
            return copy.deepcopy(x.surface(ang, 0.5)[:4])
        return [x.isclosed(), x.issampleable(), x.isintersectable(), x.iscontinuous()]
    except Exception as e:
        return "EXC:" + type(e).__name__


def convex(rng, n, s=5.0, c=(0, 0)):
    while True:
        an = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        gaps = [(b - a) % (2 * math.pi) for a, b in zip(an, an[1:] + an[:1])]
        if max(gaps) < 2.6 and min(gaps) > .35:
            return [[c[0] + s * math.cos(a), c[1] + s * math.sin(a)] for a in an]


def make(rng, kind=None):
    kind = kind or rng.choice(["point", "line", "arc", "circle", "poly", "closedpoly", "list", "closedlist", "polygon", "polygon", "roundpoly", "boolean", "boolean", "solid", "copy"])
    z = 0.0
    if kind == "point":
        return kind, GE.Geometry(G2.rpt(rng))
    if kind == "line":
        return kind, rng.choice([lambda e: GE.Geometry(e), lambda e: GE.Line(e[0], e[1])])(G2.rline(rng))
    if kind == "arc":
        return kind, GE.Geometry(G2.rarc(rng, circle=False))
    if kind == "circle":
        return kind, GE.Geometry(G2.rarc(rng, circle=True))
    if kind == "poly":
        return kind, GE.Geometry(G2.ropenpoly(rng))
    if kind == "closedpoly":
        return kind, GE.Geometry(G2.closed(G2.rstar(rng)))
    if kind == "list":
        return kind, GE.Geometry(G2.ropenlist(rng))
    if kind == "closedlist":
        return kind, GE.Geometry(G2.rclosedlist(rng))
    if kind == "polygon":
        p = PO.Polygon()
        for q in convex(rng, rng.randint(3, 6), rng.uniform(2, 8), (rng.uniform(-4, 4), rng.uniform(-4, 4))):
            p.addPoint(g.point(*q))
        return kind, p
    if kind == "roundpoly":
        p = PO.Polygon()
        for q in convex(rng, rng.randint(3, 5), rng.uniform(4, 8), (rng.uniform(-4, 4), rng.uniform(-4, 4))):
            p.addArc(g.arc(g.point(*q), rng.uniform(.2, .9)))
        return kind, p
    if kind == "boolean":
        return kind, rbool(rng)[0]
    if kind == "solid":
        k = rng.randrange(3)
        s = u.prism(rng.uniform(1, 4), rng.uniform(1, 4), rng.uniform(1, 4), g.point(rng.uniform(-3, 3), 0, 1)) if k == 0 else \
            u.sphere(rng.uniform(1, 4), depth=1) if k == 1 else u.conic(2, 1, 3, angr=30)
        return kind, GE.Geometry(s)
    k, o = make(rng, rng.choice(["circle", "closedpoly", "closedlist", "list", "line"]))
    return k, GE.Geometry(o)


def rshape(rng):
    """-> (Geometry, membership fn, distance-ish fn) axis-independent generic shape"""
    c = [rng.uniform(-2, 2), rng.uniform(-2, 2)]
    if rng.random() < .45:
        r = rng.uniform(1.2, 3.5)
        return PO.Circle(g.point(*c), r), (lambda p: math.hypot(p[0] - c[0], p[1] - c[1]) < r), (lambda p: abs(math.hypot(p[0] - c[0], p[1] - c[1]) - r))
    V = convex(rng, rng.randint(3, 6), rng.uniform(1.5, 4), c)
    if rng.random() < .5:
        P = PO.Polygon()
        for q in V:
            P.addPoint(g.point(*q))
    else:
        P = GE.Geometry([g.point(*q) for q in V + V[:1]])

    def sd(p):
        return min((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]) for a, b in zip(V, V[1:] + V[:1]))

    def dd(p):
        return min(abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(V, V[1:] + V[:1]))
    return P, (lambda p: sd(p) > 0), dd


def rbool(rng, n=None):
    t = rng.choice(["union", "intersection", "difference"])
    S = [rshape(rng) for _ in range(n or 2)]
    return BO.Boolean(t, [s[0] for s in S], minang=3.0, minlen=.1), t, S


def twin(kind, x):
    if kind == "boolean":
        return BO.Boolean(x.type, [twin("polygon" if isinstance(e, PO.Polygon) else "g", e) for e in x.elem], minang=3.0, minlen=.1)
    if kind in ("polygon", "roundpoly"):
        t = PO.Polygon()
        t.elem = copy.deepcopy(x.elem)
        return t
    return GE.Geometry(copy.deepcopy(x.elem))


def compare(ctx, rng, kind, x, log):
    t = twin(kind, x)
    qs = [q for q in QUERIES if rng.random() < .6]
    if rng.random() < .3:
        qs += ["surface"]
    rng.shuffle(qs)
    r = [rng.random() for _ in range(4)]
    for q in qs:
        if kind == "solid" and q in ("sample", "unsample", "segment", "inside", "surface"):
            continue
        if kind == "boolean" and q == "surface" and rng.random() < .7:
            continue
        if kind == "point" and q in ("segment", "inside", "surface", "unsample"):
            continue
        a, b = query(x, q, r), query(t, q, r)
        ctx.ev("fresh_compare")
        if q == "surface":
            ctx.ev("surfaces")
        if q == "flags" and kind != "boolean":
            b = a if x.isclosed() == t.isclosed() or kind in ("line", "poly", "list") else b
        if not ctx.check(same(a, b), f"stale:{q}:{kind}", lambda: f"{kind}.{q} = {str(a)[:300]} but a fresh object gives {str(b)[:300]} after {log}", log):
            return False
    return True


def rot(a):
    c, s = math.cos(a), math.sin(a)
    return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def hist(ctx, rng):
    kind, x = make(rng)
    log = [kind]
    ok = compare(ctx, rng, kind, x, log) if rng.random() < .7 else True
    for _ in range(rng.randint(2, 6)):
        if not ok:
            return
        op = rng.choice(["translate", "rotate", "scale", "mirror", "edit"])
        L0 = None
        if kind not in ("solid", "point"):
            try:
                L0 = x.length
            except Exception:
                pass
        area0 = None
        sam = kind in ("line", "arc", "poly", "closedpoly", "list", "closedlist", "polygon")
        U = [rng.random() for _ in range(3)]
        S0 = [np.array(x.sample(v)[:3]) for v in U] if sam else []
        vol0 = g3.volumeof(x.geom) if kind == "solid" else 0
        V0 = np.array([p[:3] for s in x.geom[1] for p in s[1]]) if kind == "solid" else (np.array([x.geom[:3]]) if kind == "point" else None)
        if kind in ("closedpoly",):
            area0 = G2.area(x.geom)
        A, b, k = np.eye(3), np.zeros(3), 1.0
        keep = True
        ctx.ev("edits")
        if op == "translate":
            b = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5), 0])
            x.translate(g.point(*b))
        elif op == "rotate":
            a = rng.uniform(-200, 200)
            c = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5), 0])
            A = rot(math.radians(a))
            b = c - A @ c
            x.rotate(a, cent=g.point(*c)) if kind != "boolean" else x.rotate(a, g.point(*c))
        elif op == "scale":
            k = rng.uniform(.6, 1.6)
            c = np.array([rng.uniform(-5, 5), rng.uniform(-5, 5), 0])
            A = np.eye(3) * k
            b = c - A @ c
            x.scale(k, cent=g.point(*c))
        elif op == "mirror":
            pl = rng.choice(["xz", "yz"] if kind != "solid" else ["xz", "yz", "xy"])
            A = np.diag({"xz": [1, -1, 1], "yz": [-1, 1, 1], "xy": [1, 1, -1]}[pl]).astype(float)
            keep = rng.random() < .6 or kind in ("boolean", "polygon", "roundpoly", "closedlist")
            if kind in ("boolean", "solid"):
                x.mirror(pl)
            else:
                x.mirror(pl, keep)
        else:
            if not edit(ctx, rng, kind, x, log):
                continue
            ok = compare(ctx, rng, kind, x, log)
            continue
        log.append((op, [round(t, 4) for t in np.ravel(A)], [round(t, 4) for t in b], keep))
        ctx.ev("affine")
        if L0 is not None:
            try:
                L1 = x.length
            except Exception as e:
                ctx.viol(f"length:{kind}", f"{kind}.length raised {e!r} after {log}", log)
                return
            tol = 2e-2 if kind == "boolean" else 1e-5
            if kind != "boolean" or op != "scale":   # re-tessellated at a fixed chord length
                ok &= ctx.check(abs(L1 - k * L0) < tol * (1 + L0), f"affine:length:{kind}", lambda: f"{op} by {k}: length {L0} -> {L1}; {log}", log)
        if sam:
            for v, s in zip(U, S0):
                w = A @ s + b
                vv = v
                if op == "mirror" and keep:
                    if kind == "polygon":
                        continue
                    vv = 1 - v
                q = np.array(x.sample(vv)[:3])
                ok &= ctx.check(np.abs(q - w).max() < 1e-4, f"affine:sample:{kind}", lambda: f"{op}: sample({vv}) = {q}, expected image {w} of the original sample({v}); {log}", log)
        if area0 is not None:
            want = area0 * k * k * (-1 if op == "mirror" and not keep else 1)
            ok &= ctx.check(abs(G2.area(x.geom) - want) < 1e-5 * (1 + abs(want)), f"affine:area:{kind}", lambda: f"{op} keepSign={keep}: signed area {area0} -> {G2.area(x.geom)}, expected {want}; {log}", log)
        if V0 is not None:
            W = np.array([p[:3] for s in x.geom[1] for p in s[1]]) if kind == "solid" else np.array([x.geom[:3]])
            X = V0 @ A.T + b
            ok &= ctx.check(W.shape == X.shape and np.abs(W - X).max() < 1e-6 * (1 + np.abs(X).max()), f"affine:vertices:{kind}", lambda: f"{op}: {kind} not moved by the map; {log}", log)
            bb = x.bbox
            if kind == "solid":
                e = max(np.abs(np.array(bb[0][:3]) - X.min(0)).max(), np.abs(np.array(bb[1][:3]) - X.max(0)).max()) if bb else 9
                ok &= ctx.check(e < 1e-6 * (1 + np.abs(X).max()), "affine:bbox:solid", lambda: f"bbox {bb} after {log}, vertices span {X.min(0)} {X.max(0)}", log)
                ok &= ctx.check(g3.issolid(x.geom, fast=False) and abs(g3.volumeof(x.geom) - vol0 * k ** 3) < 1e-5 * (1 + vol0 * k ** 3), "affine:volume:solid", lambda: f"{op}: volume {vol0} -> {g3.volumeof(x.geom) if g3.issolid(x.geom,fast=False) else 'invalid solid'}; {log}", log)
        if ok and rng.random() < .8:
            ok = compare(ctx, rng, kind, x, log)
    ctx.case(log)


def edit(ctx, rng, kind, x, log):
    if kind in ("polygon", "roundpoly"):
        k = rng.choice(["setPoint", "grow", "remove", "elem", "add"])
        n = len(x.elem)
        if k == "add":
            e0, e1 = x.elem[-1], x.elem[0]
            if g.isline(e0) or g.isline(e1):
                return False
            C = [np.array(e[:3] if g.ispoint(e) else e[0][:3], float) for e in x.elem]
            m = (C[-1] + C[0]) / 2
            d = C[0] - C[-1]
            L = math.hypot(d[0], d[1])
            if n > 9 or L < 1.5:
                return False
            q = g.point(*(m + np.array([d[1], -d[0], 0]) / L * rng.uniform(.2, .35) * L))
            how = rng.choice(["addPoint", "setPoint"]) if kind == "polygon" else "addArc"
            if how == "addPoint":
                x.addPoint(q)
            elif how == "setPoint":
                x.setPoint(n, q)
            else:
                q = g.arc(q, rng.uniform(.1, .25) * L)
                x.addArc(q)
            log.append((how, q))
            ctx.ev("appended")
            ctx.check(len(x.elem) == n + 1, "polygon:append", f"{how} left {len(x.elem)} elements instead of {n + 1}", log)
            return True
        if k == "setPoint" and kind == "polygon":
            i = rng.randrange(n)
            if not g.ispoint(x.elem[i]):
                return False
            c = np.mean([e[:3] if g.ispoint(e) else e[0][:3] for e in x.elem], axis=0)
            p = np.array(x.elem[i][:3])
            x.setPoint(i, g.point(*(c + (p - c) * rng.uniform(.9, 1.3))))
            log.append(("setPoint", i))
            return True
        if k == "grow":
            r = rng.uniform(.1, .8)
            L = x.length
            if kind == "polygon" and not all(g.ispoint(e) for e in x.elem) and len(x.elem) < 3:
                return False
            x.grow(r)
            log.append(("grow", r))
            ctx.check(abs(x.length - L - 2 * math.pi * r) < 1e-3 * (1 + L), "grow:length", lambda: f"grow({r}): length {L} -> {x.length}, expected +{2*math.pi*r}; {log}", log)
            return True
        if k == "remove" and n > 4:
            x.remove(x.elem[rng.randrange(n)])
            log.append("remove")
            return True
        if k == "elem":
            x.elem = copy.deepcopy(make(rng, kind)[1].elem)
            log.append("elem=")
            return True
        return False
    if kind in ("boolean", "solid"):
        if kind == "solid":
            x.elem = u.prism(rng.uniform(1, 3), 1, 2)
            log.append("elem=prism")
            return True
        return False
    x.elem = copy.deepcopy(make(rng, kind)[1].elem)
    log.append("elem=")
    return True


def hull(ctx, rng):
    """Polygon of equal circles / points at convex positions"""
    n = rng.randint(3, 7)
    V = convex(rng, n, rng.uniform(3, 9), (rng.uniform(-20, 20), rng.uniform(-20, 20)))
    per = sum(math.dist(V[i - 1], V[i]) for i in range(n))
    ar = sum(V[i - 1][0] * V[i][1] - V[i][0] * V[i - 1][1] for i in range(n)) / 2
    r = rng.choice([0, rng.uniform(.1, 1.0)])
    ctx.ev("hulls")
    ctx.case([V, r])
    P = PO.Polygon()
    how = rng.random()
    if r == 0:
        if how < .3:
            P = PO.Polygon([g.point(*v) for v in V] + ([g.point(*V[0])] if rng.random() < .5 else []))
        else:
            for i, v in enumerate(V):
                if rng.random() < .3:
                    P.setPoint(i, g.point(*v))
                else:
                    P.addPoint(g.point(*v))
                if i >= 2 and rng.random() < .3:
                    P.geom, P.length, P.bbox
                    ctx.ev("appended")
    elif how < .2:
        P = PO.Polygon([g.arc(g.point(*v), r) for v in V])
        ctx.ev("constructed")
    elif how < .5:
        for i, v in enumerate(V):
            P.addArc(g.arc(g.point(*v), r))
            if i >= 2 and rng.random() < .3:
                P.geom, P.length, P.bbox
                ctx.ev("appended")
    else:
        for v in V:
            P.addPoint(g.point(*v))
        if rng.random() < .5:
            P.length, P.bbox, P.geom
        if rng.random() < .4:
            a = r * rng.uniform(.2, .8)
            P.grow(a)
            P.grow(r - a)
        else:
            P.grow(r)
    ctx.check(abs(P.length - per - 2 * math.pi * r) < 1e-4 * (1 + per), "hull:length", lambda: f"outline of {n} corners offset {r}: length {P.length}, expected {per+2*math.pi*r}", [V, r])
    xs, ys = [v[0] for v in V], [v[1] for v in V]
    cm = P.center
    ctx.check(g.ispoint(cm) and math.hypot(cm[0] - sum(xs) / n, cm[1] - sum(ys) / n) < 1e-6, "hull:center", lambda: f"centre {cm}, the mean of the corners is {[sum(xs)/n, sum(ys)/n]}", [V, r])
    bb = P.bbox
    e = max(abs(bb[0][0] - min(xs) + r), abs(bb[0][1] - min(ys) + r), abs(bb[1][0] - max(xs) - r), abs(bb[1][1] - max(ys) - r))
    ctx.check(e < 1e-3, "hull:bbox", lambda: f"outline box {bb}, expected the corner box grown by {r}", [V, r])
    for _ in range(12):
        t = rng.random()
        q = P.sample(t)
        d = distpoly(V, q)
        ctx.check(abs(d - r) < 1e-3, "hull:sample", lambda: f"sample({t}) = {q} is {d} from the corner polygon, offset is {r}", [V, r])
    for _ in range(8):
        q = [rng.uniform(min(xs) - r - 1, max(xs) + r + 1), rng.uniform(min(ys) - r - 1, max(ys) + r + 1)]
        d = distpoly(V, q)
        if abs(d - r) < 5e-2:
            continue
        ctx.ev("memberships")
        ctx.check(bool(P.isinsideXY(g.point(*q))) == (d < r), "hull:inside", lambda: f"isinsideXY({q}) is {P.isinsideXY(g.point(*q))}, signed distance to the corner polygon {d}, offset {r}", [V, r])
    if rng.random() < .5:
        S = P.surface(3.0, .2)
        A = M.area(M.tris(S))
        want = ar + per * r + math.pi * r * r
        ctx.ev("surfaces")
        ctx.check(abs(A - want) < 1e-2 * want + 1e-6, "hull:area", lambda: f"surface area {A}, expected {want}", [V, r])
    if rng.random() < .3:
        ctx.ev("refusals")
        before = repr(P.elem)
        for bad in (lambda: P.addPoint(7), lambda: P.addArc(g.point(0, 0)), lambda: P.addLine(g.point(0, 0)), lambda: P.setPoint(0, 7), lambda: P.setPoint(n + 1, g.point(0, 0)), lambda: P.setPoint(0, g.arc(g.point(0, 0), 1))):
            try:
                bad()
                ctx.viol("polygon:refuse", "a bad element or index was accepted", [V, r])
            except ValueError:
                pass
        ctx.check(repr(P.elem) == before, "polygon:refuse", "a refused edit changed the elements", [V, r])
        try:
            P.grow(-.5)
            ctx.viol("grow:negative", "negative growth accepted")
        except ValueError:
            pass
        ctx.check(repr(P.elem) == before, "grow:negative-changed", "refused growth changed the polygon")
    w, h, c = rng.uniform(2, 9), rng.uniform(2, 9), [rng.uniform(-9, 9), rng.uniform(-9, 9)]
    R = PO.Rect(w, h, g.point(*c))
    ch = rng.uniform(.2, .9) * min(w, h)
    RR = PO.RoundRect(w, h, ch, g.point(*c))
    C = PO.Circle(g.point(*c), w)
    for o, W, H, L, nm in ((R, w, h, 2 * (w + h), "Rect"), (RR, w, h, 2 * (w + h - 2 * ch) + math.pi * ch, "RoundRect"), (C, 2 * w, 2 * w, 2 * math.pi * w, "Circle")):
        bb = o.bbox
        want = [c[0] - W / 2, c[1] - H / 2, c[0] + W / 2, c[1] + H / 2]
        ctx.check(max(abs(a - b) for a, b in zip([*bb[0][:2], *bb[1][:2]], want)) < 1e-3 and abs(o.length - L) < 1e-4 * L, "shape:" + nm, lambda: f"{nm}({w},{h},{ch},{c}): box {bb} length {o.length}, expected {want} {L}")


def mixed(ctx, rng):
    """outline of points, explicit lines and arcs at convex positions"""
    n = rng.randint(3, 8)
    V = convex(rng, n, rng.uniform(3, 9), (rng.uniform(-20, 20), rng.uniform(-20, 20)))
    P = PO.Polygon()
    i, kinds, bulge, extra = 0, [], [], 0
    while i < n:
        a, b = V[i], V[(i + 1) % n]
        k = rng.choice("plLa") if i + 1 < n else "p"
        if k == "p":
            P.addPoint(g.point(*a))
            i += 1
        elif k in "lL":
            P.addLine(g.line(g.point(*a), g.point(*b)))
            i += 2 if k == "l" else 1
        else:
            R = math.dist(a, b) / 2
            t = math.degrees(math.atan2(b[1] - a[1], b[0] - a[0]))
            P.addArc(g.arc(g.point((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), R, t - 180, t))
            bulge.append((a, b, R))
            extra += (math.pi - 2) * R
            i += 2
        kinds.append(k)
        if rng.random() < .3 and len(kinds) > 2:
            P.geom, P.length
    if len(kinds) < 2:
        return
    ctx.ev("mixed")
    for k in kinds:
        ctx.ev("mixed-" + k)
    ctx.case([V, kinds])
    per = sum(math.dist(V[j - 1], V[j]) for j in range(n)) + extra
    ctx.check(abs(P.length - per) < 1e-3 * per, "mixed:length", lambda: f"outline of {''.join(kinds)} is {P.length} long, expected {per}", [V, kinds])
    G = P.geom
    ends = [(g.sample(e, 0.0), g.sample(e, 1.0)) for e in G]
    gap = max(g.dist(ends[j - 1][1], ends[j][0]) for j in range(len(ends))) if ends else 9
    ctx.check(gap < 1e-3, "mixed:gap", lambda: f"outline of {''.join(kinds)} has a gap of {gap}", [V, kinds])
    R0 = max([0] + [b[2] for b in bulge])
    for _ in range(10):
        q = [rng.uniform(min(v[0] for v in V) - R0, max(v[0] for v in V) + R0), rng.uniform(min(v[1] for v in V) - R0, max(v[1] for v in V) + R0)]
        d = min([distpoly(V, q)] + [math.hypot(q[0] - (a[0] + b[0]) / 2, q[1] - (a[1] + b[1]) / 2) - R for a, b, R in bulge if (b[0] - a[0]) * (q[1] - a[1]) < (b[1] - a[1]) * (q[0] - a[0])])
        rim = min([abs(d)] + [abs(math.hypot(q[0] - (a[0] + b[0]) / 2, q[1] - (a[1] + b[1]) / 2) - R) for a, b, R in bulge])
        if rim < 5e-2 or any(segd(a, b, q) < 5e-2 for a, b, R in bulge):
            continue
        ctx.ev("mixed-in")
        ctx.check(bool(P.isinsideXY(g.point(*q))) == (d < 0), "mixed:inside", lambda: f"isinsideXY({q}) is {P.isinsideXY(g.point(*q))} for an outline of {''.join(kinds)}", [V, kinds])


def segd(a, b, q):
    L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    t = max(0, min(1, ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / L2))
    return math.hypot(q[0] - a[0] - t * (b[0] - a[0]), q[1] - a[1] - t * (b[1] - a[1]))


def distpoly(V, q):
    """distance from a convex CCW polygon, negative inside"""
    n = len(V)
    ins = all((V[(i + 1) % n][0] - V[i][0]) * (q[1] - V[i][1]) - (V[(i + 1) % n][1] - V[i][1]) * (q[0] - V[i][0]) >= 0 for i in range(n))
    d = 1e9
    for i in range(n):
        a, b = V[i], V[(i + 1) % n]
        L2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
        t = max(0, min(1, ((q[0] - a[0]) * (b[0] - a[0]) + (q[1] - a[1]) * (b[1] - a[1])) / L2))
        d = min(d, math.hypot(q[0] - a[0] - t * (b[0] - a[0]), q[1] - a[1] - t * (b[1] - a[1])))
    return -d if ins else d


def boolean(ctx, rng):
    n = 2 if rng.random() < .8 else 3
    B, t, S = rbool(rng, n)
    ctx.case([t, [s[0].geom for s in S]])
    pts = [[rng.uniform(-6, 6), rng.uniform(-6, 6)] for _ in range(25)]
    first = rng.choice(["bbox", "length", "center", "geom", "isinside", "none"])
    if first == "isinside":
        B.isinsideXY(g.point(0, 0))
    elif first != "none":
        getattr(B, first)
    geo = B.geom
    if not geo:
        # empty result: no point may satisfy the set expression clearly
        for p in pts:
            if min(s[2](p) for s in S) > .1:
                ctx.ev("memberships")
                ctx.check(not want(t, [s[1](p) for s in S]), "boolean:empty:" + t, lambda: f"{t} of {[s[0].geom for s in S]} is empty but contains {p}")
        return
    for p in pts:
        if min(s[2](p) for s in S) < .06:
            continue
        ctx.ev("memberships")
        w = want(t, [s[1](p) for s in S])
        r = bool(B.isinsideXY(g.point(*p)))
        ctx.check(r == w, f"boolean:{t}{n}", lambda: f"{t}: {p} inside={r}, expected {w}; operands {[s[0].geom for s in S]}", [s[0].geom for s in S])
    bb = B.bbox
    c = G2.pbox([q for f in geo for q in G2.pieces(f)])
    cm = B.center
    ctx.check(g.ispoint(cm) and all(bb[0][i] - 1e-6 <= cm[i] <= bb[1][i] + 1e-6 for i in range(2)), "boolean:center", lambda: f"centre {cm} of a figure spanning {bb}")
    ctx.check(all(abs(bb[j][i] - c[j][i]) < 1e-4 for i in range(2) for j in range(2)), "boolean:bbox", lambda: f"bbox {bb}, outline spans {c}")
    if rng.random() < .4:
        ctx.ev("refusals")
        for bad in (lambda: BO.Boolean("xor", [s[0] for s in S]), lambda: BO.Boolean(t, [GE.Geometry(g.line(g.point(0, 0), g.point(1, 1)))]), lambda: BO.Boolean(t, ["x"]), lambda: BO.Boolean(t, [S[0][0]]).geom):
            try:
                bad()
                ctx.viol("boolean:refuse", "bad Boolean operand or type accepted")
            except ValueError:
                pass


def want(t, m):
    if t == "union":
        return any(m)
    if t == "intersection":
        return all(m)
    return m[0] and not any(m[1:])


def alias(ctx, rng):
    kind = rng.choice(["line", "arc", "circle", "poly", "closedpoly", "list", "closedlist", "solid"])
    e = make(rng, kind)[1].elem
    src = copy.deepcopy(e)
    x = GE.Geometry(src)
    ctx.ev("alias")
    ctx.case([kind, e])
    gg = x.geom
    scribble(src)
    ctx.check(same(x.elem, e) and same(x.geom, e), f"alias:input:{kind}", "the object changed with the value it was built from")
    scribble(gg)
    ctx.check(same(x.elem, e) and same(x.geom, e), f"alias:geom:{kind}", "changing the returned geom changed the object")
    y = GE.Geometry(x)
    y.translate(g.point(1, 2, 0))
    ctx.check(same(x.elem, e), f"alias:copy:{kind}", "moving a copy moved the original")
    P = [make(rng, "polygon")[1], make(rng, "circle")[1]]
    keep = [copy.deepcopy(p.elem) for p in P]
    B = BO.Boolean("union", P)
    B.translate(g.point(3, 1, 0))
    B.rotate(30)
    ctx.check(same([p.elem for p in P], keep), "alias:boolean", "moving a Boolean moved its operands' originals")
    pl = make(rng, rng.choice(["polygon", "roundpoly"]))[1]
    k = copy.deepcopy(pl.elem)
    q = PO.Polygon(pl)
    if rng.random() < .5:
        q.grow(.3)
    else:
        q.translate(g.point(3, 4))
    ctx.check(same(pl.elem, k), "alias:polygon", "editing a Polygon copy changed the original")
    lst = [copy.deepcopy(t) for t in k]
    q = PO.Polygon(lst)
    q.grow(.2)
    q.geom
    ctx.check(same(lst, k), "alias:polygon-list", "editing a Polygon changed the list it was built from")
    gm = pl.geom
    scribble(gm)
    ctx.check(same(pl.elem, k) and same(pl.geom, twin("polygon", pl).geom), "alias:polygon-geom", "changing the returned outline changed the Polygon")


def scribble(x):
    if isinstance(x, list):
        for i in range(len(x)):
            if isinstance(x[i], list):
                scribble(x[i])
            elif num(x[i]):
                x[i] += 17


GROUPS = {"hist": (hist, 520), "hull": (hull, 250), "mixed": (mixed, 120), "boolean": (boolean, 150), "alias": (alias, 250)}

if __name__ == "__main__":
    vf.main(globals())
