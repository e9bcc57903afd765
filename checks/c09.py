import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import numpy as np
import vf
import mesh3 as M

PROP = "C09"
LEVEL = "exploration"
META = dict(
    title="3D transforms and patterns of surfaces and solids",
    statement="translate, rotate, mirror and scale (uniform or per-axis positive factors, any center and axis) of a surface or a solid, through the generic or the type-specific functions, move every vertex exactly as the corresponding affine map does, keep faces, boundary and hole indices, keep the solid outward and closed (mirroring reverses the winding), map vertex normals to the unit normals of the image, scale the enclosed volume by the determinant, compose with their inverse to the identity, and leave the input unmodified with no shared mutable vertices. reversesurface flips winding and normals only. radial_pattern and linear_pattern of solids and surfaces yield exactly the requested number of copies at exactly the requested angles (full circle without a duplicated end, partial arcs including both ends) or offsets. bbox and center follow the geometry.",
    over=["inputs"], q="for all solids and surfaces, transform parameters and compositions of transforms",
    why="Tests rotate or translate a cube once about the origin; off-center rotations about skew axes, anisotropic scaling of normals, mirrored winding and chained transforms are combinations only a model comparison covers.",
    files=["src/yapcad/geom3d.py", "src/yapcad/geom3d_util.py"],
    mech=[("translate/rotate/mirror/scale[surface|solid], reversesurface, bbox, center", "src/yapcad/geom3d.py"), ("radial_pattern_*, linear_pattern_*", "src/yapcad/geom3d_util.py")],
    technique="reference-model monitor: each transform compared vertex by vertex with a numpy affine map, plus winding, normal, volume and aliasing monitors",
    note="Exploration; 1e-7 relative on vertices, 1e-6 on normals.",
)
RULE = "random primitive, extrusion or revolution x random chain of 1-5 transforms with random centers and axes; patterns with 1-12 copies; distinct by geometry and parameters"
REQUIRE = {"transforms": 3000, "normals": 1500, "volumes": 600, "patterns": 300, "inverses": 500, "aliasing": 500}


def init():
    global g, g3, u
    from yapcad import geom as g, geom3d as g3, geom3d_util as u


def rsolid(rng):
    p = g.point(*[rng.uniform(-10, 10) for _ in range(3)])
    k = rng.randrange(8)
    s = lambda: 10 ** rng.uniform(-.3, 1.2)
    if k == 0:
        return u.prism(s(), s(), s(), p)
    if k == 1:
        return u.sphere(s(), p, depth=rng.randint(0, 2))
    if k == 2:
        return u.conic(s(), rng.choice([0, s()]), s(), p, angr=rng.choice([30, 45]))
    if k == 3:
        return u.tube(5 * s(), .3, s(), base_point=p, minang=30)
    if k == 4:
        return u.dodecahedron(s(), p)
    if k == 5:
        return u.makeRevolutionSolid(lambda z: 1 + .5 * math.sin(z), 0, s(), 4, arcSamples=8)
    n = rng.randint(3, 7)
    L = [g.point(4 * math.cos(i * 2 * math.pi / n) + p[0], 4 * math.sin(i * 2 * math.pi / n) + p[1], p[2]) for i in range(n)]
    h = []
    if k == 6:
        h = [[g.point(p[0] + x, p[1] + y, p[2]) for x, y in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5), (-.5, -.5))]]
    return u.extrude(g3.poly2surface(L + L[:1], h)[0], s())


def rsurf(rng):
    if rng.random() < .5:
        return rng.choice(rsolid(rng)[1])
    n = rng.randint(3, 9)
    z = rng.uniform(-5, 5)
    L = [g.point(4 * math.cos(i * 2 * math.pi / n), 4 * math.sin(i * 2 * math.pi / n), z) for i in range(n)]
    h = [[g.point(x, y, z) for x, y in ((-.5, -.5), (.5, -.5), (.5, .5), (-.5, .5), (-.5, -.5))]] if rng.random() < .5 else []
    return g3.poly2surface(L + L[:1], h)[0]


def rot(axis, deg):
    a = np.array(axis[:3], float)
    a /= np.linalg.norm(a)
    t = math.radians(deg)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def surfs(x):
    return x[1] if x[0] == "solid" else [x]


def V(s):
    return np.array([p[:3] for p in s[1]], float).reshape(-1, 3)


def N(s):
    return np.array([p[:3] for p in s[2]], float).reshape(-1, 3)


def rcent(rng):
    return rng.choice([None, None, [rng.uniform(-20, 20) for _ in range(3)]])


def pick(rng, x):
    """-> (name, fn(x), A, b, inverse fn or None, params)"""
    solid = x[0] == "solid"
    gen = rng.random() < .5
    k = rng.choice(["translate", "rotate", "rotate", "mirror", "scale", "scale3"])
    f = lambda n: getattr(g3, n) if gen else getattr(g3, n + ("solid" if solid else "surface"))
    I = np.eye(3)
    if k == "translate":
        d = [rng.choice([0.0, rng.uniform(-30, 30), 1e-3]) for _ in range(3)]
        fn = f("translate")
        return k, (lambda y: fn(y, g.point(*d))), I, np.array(d), (lambda y: fn(y, g.point(*[-t for t in d]))), d
    if k == "rotate":
        a = rng.choice([0, 90, 180, 270, -90, 360, 45, rng.uniform(-400, 400), rng.uniform(-1, 1)])
        ax = rng.choice([(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, -1), tuple(rng.gauss(0, 1) for _ in range(3))])
        c = rcent(rng)
        fn = f("rotate")
        kw = dict(axis=g.point(*ax))
        if ax == (0, 0, 1) and rng.random() < .5:
            kw = {}
        if c:
            kw["cent"] = g.point(*c)
        R = rot(ax, a)
        cc = np.array(c or [0, 0, 0])
        return k, (lambda y: fn(y, a, **kw)), R, cc - R @ cc, (lambda y: fn(y, -a, **kw)), [a, ax, c]
    if k == "mirror":
        p = rng.choice(["xy", "xz", "yz"])
        fn = f("mirror")
        A = np.diag({"xy": [1, 1, -1], "xz": [1, -1, 1], "yz": [-1, 1, 1]}[p]).astype(float)
        return k, (lambda y: fn(y, p)), A, np.zeros(3), (lambda y: fn(y, p)), p
    c = rcent(rng)
    cc = np.array(c or [0, 0, 0])
    kw = {"cent": g.point(*c)} if c else {}
    fn = f("scale")
    if k == "scale":
        s = 10 ** rng.uniform(-.7, .7)
        if rng.random() < .1:
            s = 1.0
        A = I * s
        return k, (lambda y: fn(y, s, **kw)), A, cc - A @ cc, (lambda y: fn(y, 1 / s, **kw)), [s, c]
    s = [rng.choice([1.0, 10 ** rng.uniform(-.6, .6)]) for _ in range(3)]
    A = np.diag(s)
    return k, (lambda y: fn(y, *s, **kw)), A, cc - A @ cc, (lambda y: fn(y, *[1 / t for t in s], **kw)), [s, c]


def compare(ctx, label, x, y, A, b, data, normals=True):
    X, Y = surfs(x), surfs(y)
    if not ctx.check(y[0] == x[0] and len(X) == len(Y), label + ":struct", lambda: f"{label}: structure changed; {data}", data):
        return False
    det = np.linalg.det(A)
    ok = True
    for p, q in zip(X, Y):
        a, c = V(p), V(q)
        if not ctx.check(a.shape == c.shape, label + ":count", lambda: f"{label}: vertex count changed; {data}", data):
            return False
        if not len(a):
            continue
        want = a @ A.T + b
        err = np.abs(want - c).max() / (1 + np.abs(want).max())
        ok &= ctx.check(err < 1e-7, label + ":vertices", lambda: f"{label}: vertex error {err}; {data}", data)
        ok &= ctx.check(all(len(t) == 4 and t[3] == 1 for t in q[1]), label + ":w", lambda: f"{label}: vertex w is not 1; {data}", data)
        F, G = [list(t) for t in p[3]], [list(t) for t in q[3]]
        if det > 0:
            same = F == G
        else:
            same = len(F) == len(G) and all(t[::-1] in (s, s[1:] + s[:1], s[2:] + s[:2]) for t, s in zip(F, G))
        ok &= ctx.check(same, label + ":faces", lambda: f"{label}: faces changed (det {det:.3g}); {data}", data)
        if normals:
            n = N(p)
            W = n @ np.linalg.inv(A)            # inverse transpose acting on rows
            L = np.linalg.norm(W, axis=1)
            if (L < 1e-9).any():
                continue
            W /= L[:, None]
            e = np.abs(W - N(q)).max()
            ctx.ev("normals")
            ok &= ctx.check(e < 1e-6, label + ":normals", lambda: f"{label}: vertex normals off by {e}; {data}", data)
            ok &= ctx.check(all(abs(t[3]) < 1e-9 for t in q[2]), label + ":normal-w", lambda: f"{label}: normal w is not 0; {data}", data)
        ok &= ctx.check([list(t) if isinstance(t, list) else t for t in p[4]] == list(q[4]) and p[5] == q[5], label + ":boundary", lambda: f"{label}: boundary or hole indices changed; {data}", data)
    return ok


def chain(ctx, rng):
    x = rsolid(rng) if rng.random() < .6 else rsurf(rng)
    x0 = x
    A0, b0 = np.eye(3), np.zeros(3)
    names = []
    for _ in range(rng.randint(1, 5)):
        name, fn, A, b, inv, prm = pick(rng, x)
        names.append((name, prm))
        before = repr(x)
        y = fn(x)
        ctx.ev("transforms")
        lab = name + ":" + x[0]
        if not ctx.check(repr(x) == before, lab + ":mutates", lambda: f"{lab}: input was modified; {prm}", prm):
            return
        if not compare(ctx, lab, x, y, A, b, prm):
            return
        if rng.random() < .35:
            z = inv(y)
            ctx.ev("inverses")
            if not compare(ctx, lab + ":inverse", x, z, np.eye(3), np.zeros(3), prm):
                return
        if rng.random() < .3:
            ctx.ev("aliasing")
            w = copy.deepcopy(x)
            yy = fn(w)
            for s in surfs(yy):
                for p in s[1] + s[2]:
                    p[0] += 1234.5
                for t in s[3]:
                    t[0] = 0
            ctx.check(repr(w) == before, lab + ":alias", lambda: f"{lab}: result shares vertices, normals or faces with the input; {prm}", prm)
        A0, b0 = A @ A0, A @ b0 + b
        x = y
        if np.abs(V(surfs(x)[0])).max() > 1e5:
            break
    ctx.case([x0[0], len(M.tris(x0)), names])
    compare(ctx, "chain", x0, x, A0, b0, names, normals=False)
    T0, T = M.tris(x0), M.tris(x)
    if x[0] == "solid":
        ctx.ev("volumes")
        v, w = M.volume(T0) * abs(np.linalg.det(A0)), M.volume(T)
        ctx.check(abs(v - w) <= 1e-6 * abs(v) + 1e-9, "chain:volume", lambda: f"signed volume {w}, expected {v} after {names}", names)
        if min(np.ptp(T.reshape(-1, 3), axis=0)) > 1 and min(np.ptp(T0.reshape(-1, 3), axis=0)) > 1 and np.linalg.cond(A0) < 8 and 0.3 < abs(np.linalg.det(A0)) < 30:
            ctx.check(g3.issolidclosed(x), "chain:closed", lambda: f"not closed after {names}", names)
            ctx.check(abs(g3.volumeof(x) - v) <= 1e-5 * v, "chain:volumeof", lambda: f"volumeof {g3.volumeof(x)}, expected {v} after {names}", names)
    lo, hi = M.box(np.concatenate([V(s) for s in surfs(x)]).reshape(-1, 1, 3)) if True else None
    bb = g3.bbox(x)
    m = 1e-7 * (1 + np.abs(hi).max() + np.abs(lo).max())
    ctx.check(np.abs(np.array(bb[0][:3]) - lo).max() < m and np.abs(np.array(bb[1][:3]) - hi).max() < m, "bbox", lambda: f"bbox {bb}, vertices {lo}..{hi}", names)
    cc = g3.center(x)
    ctx.check(np.abs(np.array(cc[:3]) - (lo + hi) / 2).max() < m, "center", lambda: f"center {cc}, box center {(lo+hi)/2}", names)


def reverse(ctx, rng):
    s = rsurf(rng)
    before = repr(s)
    r = g3.reversesurface(s)
    ctx.case(before)
    ctx.check(repr(s) == before, "reverse:mutates", "reversesurface modified its input")
    ctx.check(r[1] == s[1] and r[4] == s[4] and r[5] == s[5], "reverse:vertices", "reversesurface changed vertices or boundaries")
    ctx.check(np.abs(N(r) + N(s)).max() < 1e-12, "reverse:normals", "reversesurface did not negate the normals")
    ctx.check(len(r[3]) == len(s[3]) and all(list(t)[::-1] in (list(q), q[1:] + q[:1], q[2:] + q[:2]) for t, q in zip(s[3], r[3])), "reverse:faces", "reversesurface did not flip the faces")
    rr = g3.reversesurface(r)
    ctx.check(np.abs(N(rr) - N(s)).max() < 1e-12 and M.volume(M.tris(rr)) == M.volume(M.tris(s)), "reverse:twice", "reversing twice is not the identity")
    ctx.check(abs(g3.surfacearea(r) - M.area(M.tris(s))) < 1e-6 * (1 + g3.surfacearea(r)), "reverse:area", "area changed")


def patterns(ctx, rng):
    solid = rng.random() < .5
    x = rsolid(rng) if solid else rsurf(rng)
    n = rng.choice([1, 2, 3, 4, rng.randint(5, 12)])
    ctx.ev("patterns")
    before = repr(x)
    if rng.random() < .55:
        c = rcent(rng)
        ax = rng.choice([None, (0, 0, 1), (1, 0, 0), (0, -1, 0), tuple(rng.gauss(0, 1) for _ in range(3))])
        a = rng.choice([None, 360.0, 360, 90, 180, -90, 270, rng.uniform(-350, 350)])
        kw = {}
        if c is not None:
            kw["center"] = g.point(*c)
        if ax is not None:
            kw["axis"] = g.point(*ax)
        if a is not None:
            kw["angle"] = a
        out = (u.radial_pattern_solid if solid else u.radial_pattern_surface)(x, n, **kw)
        full = a is None or abs(a - 360) < 1e-9
        step = 0 if n == 1 else (360 / n if full else a / (n - 1))
        cc = np.array(c or [0, 0, 0])
        maps = []
        for i in range(n):
            R = rot(ax or (0, 0, 1), i * step)
            maps.append((R, cc - R @ cc))
        prm = ["radial", n, c, ax, a]
    else:
        d = [rng.choice([0.0, rng.uniform(-9, 9)]) for _ in range(3)]
        form = rng.choice(["point", "list", "tuple"])
        sp = g.point(*d) if form == "point" else (list(d) if form == "list" else tuple(d))
        if form == "point" and rng.random() < .3:
            sp = g.vect(d[0], d[1], d[2], 0)
        out = (u.linear_pattern_solid if solid else u.linear_pattern_surface)(x, n, sp)
        maps = [(np.eye(3), np.array(d) * i) for i in range(n)]
        prm = ["linear", n, d, form]
    ctx.case([x[0], len(M.tris(x)), prm])
    lab = prm[0] + ":" + x[0]
    ctx.check(repr(x) == before, lab + ":mutates", lambda: f"{prm} modified its input")
    if not ctx.check(isinstance(out, list) and len(out) == n, lab + ":count", lambda: f"{prm}: {len(out)} copies"):
        return
    for y, (A, b) in zip(out, maps):
        if not compare(ctx, lab, x, y, A, b, prm):
            return


GROUPS = {"chain": (chain, 1600), "reverse": (reverse, 250), "patterns": (patterns, 500)}
if __name__ == "__main__":
    vf.main(globals())
