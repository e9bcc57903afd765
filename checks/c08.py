import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math
import numpy as np
import vf
import mesh3 as M

PROP = "C08"
LEVEL = "exploration"
META = dict(
    title="3D solid construction: closed, outward, right shape and volume",
    statement="Every solid-producing constructor (prism, sphere, oblate_spheroid, dodecahedron, conic frustum/cone/cylinder, tube, conic_tube, full or partial spherical_shell, surface of revolution, extrude of a planar surface with or without holes in any direction, loft of two or more profiles), for every valid size, position and resolution, yields a closed mesh in which every edge is used once in each direction by the faces, oriented outward, whose vertices lie exactly on the ideal shape, whose facets stay within the requested chord tolerance, and whose volume is that of the ideal polyhedron (or approaches the smooth shape from inside within its resolution). issolidclosed, volumeof, surfacearea and solidbbox agree with direct measurement of the mesh, also for open solids; adaptive arc segment counts honour their limits; stack_solids places solids end to end with the requested start, gaps and alignment; invalid dimensions are refused.",
    over=["inputs"], q="for all primitives, dimensions, positions, resolutions, profiles and extrusion directions",
    why="Tests build a handful of primitives at the origin with default resolution and compare one volume; orientation, closure at poles and seams, partial shells, oblique extrusions and multi-profile lofts depend on parameter combinations.",
    files=["src/yapcad/geom3d_util.py", "src/yapcad/geom3d.py"],
    mech=[("primitives, makeRevolutionSurface, extrude, makeLoftSolid/loft, stack_solids", "src/yapcad/geom3d_util.py"), ("issolidclosed, volumeof, surfacearea, solidbbox", "src/yapcad/geom3d.py")],
    technique="mesh oracle monitor: welded directed-edge balance, signed volume and analytic-shape membership of every vertex and facet, on each constructed solid",
    note="Exploration; sizes 0.05..200, volumes at 1e-6 relative for polyhedra, chord bounds for curved shapes.",
)
RULE = "random primitive kind, dimensions, base point, resolution (default, angular, chord error, max chord); random star/comb profiles with holes for extrude; random 2-5 profile lofts; distinct by constructor and parameters"
REQUIRE = {"solids": 1500, "closed_edges": 100000, "extrudes": 250, "lofts": 150, "stacks": 100, "open_solids": 60, "refusals": 100}


def init():
    global g, g3, u, xf
    from yapcad import geom as g, geom3d as g3, geom3d_util as u, xform as xf


def judge(ctx, label, s, vol=None, frac=None, tol=1e-6, data=None):
    """generic solid oracle. vol = exact volume, or frac=(lo,hi) multiples of vol"""
    ctx.ev("solids")
    T = M.tris(s)
    if not ctx.check(len(T) > 3 and np.isfinite(T).all(), label + ":finite", f"{label}: bad mesh", data):
        return None
    size = float(np.ptp(T.reshape(-1, 3), axis=0).max())
    wt = min(1e-5, size * 1e-5)
    d = M.defects(T, wt)
    ctx.ev("closed_edges", len(T) * 3 // 2)
    ctx.check(not d, label + ":closed", lambda: f"{label}: {len(d)} edges are open or used twice in one direction; {data}", data)
    V = M.volume(T)
    ctx.check(V > 0, label + ":outward", lambda: f"{label}: signed volume {V} is not positive (inside out); {data}", data)
    if vol is not None:
        lo, hi = (vol * (1 - tol), vol * (1 + tol)) if frac is None else (vol * frac[0], vol * frac[1])
        ctx.check(lo <= V <= hi, label + ":volume", lambda: f"{label}: volume {V}, expected {lo}..{hi}; {data}", data)
    ctx.check(g3.issolid(s, fast=False), label + ":issolid", lambda: f"{label}: issolid(fast=False) rejects it; {data}", data)
    if size > 0.2:
        if not d:
            ctx.check(g3.issolidclosed(s), label + ":issolidclosed", lambda: f"{label}: issolidclosed is False on a closed mesh; {data}", data)
            vv = g3.volumeof(s)
            ctx.check(abs(vv - abs(V)) <= 1e-6 * abs(V) + 1e-9 * size ** 3, label + ":volumeof", lambda: f"{label}: volumeof {vv}, direct {V}; {data}", data)
    b = g3.solidbbox(s)
    lo, hi = M.box(T)
    ctx.check(np.allclose(b[0][:3], lo, atol=1e-9 * (1 + size)) and np.allclose(b[1][:3], hi, atol=1e-9 * (1 + size)), label + ":bbox", lambda: f"{label}: solidbbox {b}, mesh {lo} {hi}", data)
    sa = sum(g3.surfacearea(x) for x in s[1])
    A = M.area(T)
    ctx.check(abs(sa - A) <= 1e-6 * A + 1e-9, label + ":area", lambda: f"{label}: surfacearea {sa}, direct {A}; {data}", data)
    for x in s[1]:
        n = np.array([q[:4] for q in x[2]], float).reshape(-1, 4)
        if len(n):
            ctx.check(abs(np.linalg.norm(n[:, :3], axis=1) - 1).max() < 1e-6 and abs(n[:, 3]).max() < 1e-9, label + ":unit-normals", lambda: f"{label}: vertex normals are not unit directions; {data}", data)
    return T


def rpos(rng):
    k = rng.random()
    s = 0 if k < .25 else (10 if k < .8 else 200)
    return [rng.uniform(-s, s) for _ in range(3)]


def rsize(rng):
    return 10 ** rng.uniform(-0.8, 1.9)


def flat_normals(ctx, label, s, data):
    for x in s[1]:
        ctx.check(not M.normals_ok(x, 1 - 1e-4), label + ":normals", lambda: f"{label}: vertex normals disagree with the planar faces; {data}", data)


def polyhedra(ctx, rng):
    c = rpos(rng)
    cp = g.point(*c)
    if rng.random() < .6:
        l, w, h = rsize(rng), rsize(rng), rsize(rng)
        data = ["prism", l, w, h, c]
        ctx.case(data)
        s = u.prism(l, w, h, cp)
        T = judge(ctx, "prism", s, l * w * h, data=data)
        flat_normals(ctx, "prism", s, data)
        lo, hi = M.box(T)
        e = np.array([l, w, h]) / 2
        ctx.check(np.allclose(lo, c - e, atol=1e-7 * (1 + max(l, w, h))) and np.allclose(hi, c + e, atol=1e-7 * (1 + max(l, w, h))), "prism:place", lambda: f"prism {data} spans {lo} {hi}")
    else:
        d = rsize(rng)
        data = ["dodecahedron", d, c]
        ctx.case(data)
        s = u.dodecahedron(d, cp)
        a = d / 2 * 4 / (math.sqrt(3) * (1 + math.sqrt(5)))
        T = judge(ctx, "dodecahedron", s, (15 + 7 * math.sqrt(5)) / 4 * a ** 3, tol=1e-5, data=data)
        flat_normals(ctx, "dodecahedron", s, data)
        r = np.linalg.norm(T.reshape(-1, 3) - c, axis=1)
        ctx.check(abs(r - d / 2).max() < 1e-6 * d, "dodecahedron:vertices", lambda: f"dodecahedron {data}: vertex radii {r.min()}..{r.max()}")
    ctx.check(cp[:3] == c, "mutated", "constructor changed its center argument")


def round_(ctx, rng):
    c = rpos(rng)
    d = rsize(rng)
    depth = rng.choice([0, 1, 2, 2, 3])
    f = 0.0
    if rng.random() < .6:
        data = ["sphere", d, c, depth]
        s = u.sphere(d, g.point(*c), depth=depth)
    else:
        f = rng.choice([0.0, 0.003, 0.1, 0.5, 0.8, rng.uniform(0, .9)])
        data = ["oblate_spheroid", d, f, c, depth]
        s = u.oblate_spheroid(d, f, g.point(*c), depth=depth)
    ctx.case(data)
    lo = [0.60, 0.87, 0.96, 0.99][depth]
    T = judge(ctx, data[0], s, math.pi / 6 * d ** 3 * (1 - f), (lo, 1 + 1e-6), data=data)
    if T is None:
        return
    ctx.check(len(T) == 20 * 4 ** depth, data[0] + ":facets", lambda: f"{data}: {len(T)} facets")
    P = (T.reshape(-1, 3) - c) / np.array([1, 1, 1 - f])
    r = np.linalg.norm(P, axis=1)
    ctx.check(abs(r - d / 2).max() < 1e-5 * d, data[0] + ":vertices", lambda: f"{data}: vertices at {r.min()}..{r.max()} of {d/2}")
    v = np.array([p[:3] for p in s[1][0][1]]) - c
    n = np.array([p[:3] for p in s[1][0][2]])
    e = v / np.array([1, 1, (1 - f) ** 2])
    e /= np.linalg.norm(e, axis=1)[:, None]
    ctx.check((np.einsum("ij,ij->i", e, n) > 1 - 1e-5).all(), data[0] + ":normals", lambda: f"{data}: vertex normals are not the ellipsoid normals")


def arcsamp(rng, r):
    """random resolution kwargs for conic (angr style) -> (kwargs, n exact or None, sag bound, chord bound)"""
    k = rng.random()
    if k < .3:
        return {}, None, None, None
    if k < .6:
        a = rng.choice([1, 2, 5, 7.5, 10, 11, 30, 45, rng.uniform(1, 45)])
        return dict(angr=a), round(360 / a), None, None
    if k < .8:
        e = r * 10 ** rng.uniform(-3.5, -1)
        return dict(chord_error=e), None, e, None
    m = r * 10 ** rng.uniform(-1.5, 0)
    return dict(max_chord=m), None, None, m


def ring_n(T, c, r, z, tol):
    P = T.reshape(-1, 3) - c
    m = (abs(P[:, 2] - z) < tol) & (abs(np.hypot(P[:, 0], P[:, 1]) - r) < tol)
    return len(set(np.round(np.arctan2(P[m, 1], P[m, 0]) / (2 * math.pi) * 3600 * 7, 0).astype(int) % (3600 * 7)))


def on_cone(P, r0, r1, z0, z1, tol):
    """points on the lateral cone ring at z0 (radius r0) or z1 (radius r1)"""
    R = np.hypot(P[:, 0], P[:, 1])
    return ((abs(P[:, 2] - z0) < tol) & (abs(R - r0) < tol)) | ((abs(P[:, 2] - z1) < tol) & (abs(R - r1) < tol))


def sagchk(ctx, label, n, r, kw, sag, chord, data):
    if sag is not None and 2 * math.pi / 360 > 0:
        need = math.ceil(math.pi / math.acos(max(-1, 1 - min(sag / r, .999999))))
        if need <= 360:
            ctx.check(r * (1 - math.cos(math.pi / n)) <= sag * (1 + 1e-6), label + ":sagitta", lambda: f"{label}: {n} segments, sagitta {r*(1-math.cos(math.pi/n))} > chord_error {sag}; {data}")
    if chord is not None and math.pi / math.asin(min(1, chord / (2 * r))) <= 359:
        ctx.check(2 * r * math.sin(math.pi / n) <= chord * (1 + 1e-6), label + ":chord", lambda: f"{label}: {n} segments, chord {2*r*math.sin(math.pi/n)} > {chord}; {data}")


def conics(ctx, rng):
    c = rpos(rng)
    h = rsize(rng)
    r0 = rsize(rng)
    k = rng.random()
    r1 = 0.0 if k < .3 else (r0 if k < .55 else rsize(rng))
    kw, n, sag, chord = arcsamp(rng, max(r0, r1))
    data = ["conic", r0, r1, h, c, kw]
    ctx.case(data)
    s = u.conic(r0, r1, h, g.point(*c), **kw)
    V = math.pi * h / 3 * (r0 * r0 + r0 * r1 + r1 * r1)
    if n:
        T = judge(ctx, "conic", s, V * n / 2 * math.sin(2 * math.pi / n) / math.pi, tol=1e-5, data=data)
    else:
        T = judge(ctx, "conic", s, V, (0.97, 1 + 1e-6), data=data)
    if T is None:
        return
    P = T.reshape(-1, 3) - c
    ax = (np.hypot(P[:, 0], P[:, 1]) < 1e-6 * r0) & ((abs(P[:, 2]) < 1e-6 * h) | (abs(P[:, 2] - h) < 1e-6 * h))
    ok = ax | on_cone(P, r0, r1, 0, h, 1e-5 * max(r0, r1, h))
    ctx.check(ok.all(), "conic:vertices", lambda: f"conic: vertices off the frustum, e.g. {P[~ok][0]}; {data}")
    if max(r0, r1) > .3:
        nn = ring_n(T, c, r0, 0, 1e-5 * max(r0, h))
        if n:
            ctx.check(nn == n, "conic:segments", lambda: f"conic: {nn} segments on the base, angr asks {n}; {data}")
        sagchk(ctx, "conic", nn, max(r0, r1), kw, sag, chord, data)


def tubes(ctx, rng):
    c = rpos(rng)
    L = rsize(rng)
    d0 = max(0.2, rsize(rng))
    kw = {}
    k = rng.random()
    sag = chord = n = None
    if k < .3:
        kw["minang"] = a = rng.choice([1, 3, 5, 10, 30])
        n = round(360 / a)
    elif k < .5:
        kw["chord_error"] = sag = d0 / 2 * 10 ** rng.uniform(-3.5, -1)
    elif k < .7:
        kw["max_chord"] = chord = d0 / 2 * 10 ** rng.uniform(-1.5, 0)
    place = rng.choice(["base_point", "center", "none"])
    if place == "none":
        c = [0, 0, 0]
    elif place == "center":
        kw["center"] = g.point(*c)
    else:
        kw["base_point"] = g.point(*c)
    if rng.random() < .5:
        d1 = d0
        w = d0 / 2 * rng.uniform(.05, .9)
        data = ["tube", d0, w, L, {k: v for k, v in kw.items()}]
        s = u.tube(d0, w, L, **kw)
        lab = "tube"
    else:
        d1 = max(0.2, rsize(rng))
        w = min(d0, d1) / 2 * rng.uniform(.05, .9)
        data = ["conic_tube", d0, d1, w, L, {k: v for k, v in kw.items()}]
        s = u.conic_tube(d0, d1, w, L, **kw)
        lab = "conic_tube"
    ctx.case(data)
    f = lambda a, b: math.pi * L / 3 * (a * a + a * b + b * b)
    V = f(d0 / 2, d1 / 2) - f(d0 / 2 - w, d1 / 2 - w)
    T = judge(ctx, lab, s, V, (0.97 if n is None else 0.94, 1 + 1e-6), data=data)
    if T is None:
        return
    P = T.reshape(-1, 3) - c
    t = 1e-5 * max(d0, d1, L)
    ok = on_cone(P, d0 / 2, d1 / 2, 0, L, t) | on_cone(P, d0 / 2 - w, d1 / 2 - w, 0, L, t)
    ctx.check(ok.all(), lab + ":vertices", lambda: f"{lab}: vertices off the tube walls, e.g. {P[~ok][0]}; {data}")
    if d0 > 1 and d0 >= d1:
        nn = ring_n(T, c, d0 / 2, 0, t)
        sagchk(ctx, lab, nn, d0 / 2, kw, sag, chord, data)


def shells(ctx, rng):
    c = rpos(rng)
    D = max(.5, rsize(rng))
    w = D / 2 * rng.uniform(.05, .9)
    full = rng.random() < .35
    sa = 4 * math.pi if full else rng.choice([2 * math.pi, math.pi, rng.uniform(.3, 12)])
    ma = rng.choice([5.0, 5.0, 10.0, 3.0])
    st = rng.choice([24, 24, 12, 40])
    data = ["spherical_shell", D, w, sa, c, ma, st]
    ctx.case(data)
    s = u.spherical_shell(D, w, sa, g.point(*c), minang=ma, steps=st)
    R, r = D / 2, D / 2 - w
    V = sa / 3 * (R ** 3 - r ** 3)
    # the thin wall is bounded by two inscribed facets: allow the sag of both
    sg = (1 - math.cos(math.radians(ma) / 2)) + (1 - math.cos(math.pi / 2 / max(4, min(st, 12)) ))
    T = judge(ctx, "spherical_shell", s, V, (1 - 3 * sg - .02, 1 + 1e-6 + 3 * sg * r ** 3 / (R ** 3 - r ** 3)), data=data)
    if T is None:
        return
    P = T.reshape(-1, 3) - c
    q = np.linalg.norm(P, axis=1)
    ok = (abs(q - R) < 1e-5 * R) | (abs(q - r) < 1e-5 * R)
    ctx.check(ok.all(), "spherical_shell:vertices", lambda: f"spherical_shell: vertex radius {q[~ok][0]} is neither {R} nor {r}; {data}")
    cosm = 1 - sa / (2 * math.pi)
    ctx.check((P[:, 2] / q >= cosm - 1e-5).all() and abs((P[:, 2] / q).min() - cosm) < 1e-4, "spherical_shell:angle", lambda: f"spherical_shell: extends to cos(theta)={(P[:,2]/q).min()}, expected {cosm}; {data}")


def revolution(ctx, rng):
    z0 = rng.uniform(-20, 20)
    L = 10 ** rng.uniform(-.3, 1.5)
    z1 = z0 + L
    steps = rng.randint(2, 24)
    kind = rng.choice(["cone", "dcone", "sphere", "wave", "const", "pinch0", "poly"])
    a, b, w, ph = rng.uniform(.5, 10), rng.uniform(.2, 3), rng.uniform(1, 8), rng.uniform(0, 6)
    zs = sorted([z0, z1] + [rng.uniform(z0, z1) for _ in range(3)])
    rs = [rng.uniform(.5, 8) for _ in zs]
    if rng.random() < .3:
        rs[0] = 0.0
    fn = {"cone": lambda z: a * (z - z0) / L, "dcone": lambda z: a * (z1 - z) / L,
          "sphere": lambda z: math.sqrt(max(0.0, (L / 2) ** 2 - (z - z0 - L / 2) ** 2)),
          "wave": lambda z: a + a * .6 * math.sin(w * (z - z0) / L + ph), "const": lambda z: a,
          "pinch0": lambda z: a * math.sin(math.pi * (z - z0) / L) if z0 < z < z1 - 1e-12 else 0.0,
          "poly": lambda z: float(np.interp(z, zs, rs))}[kind]
    kw = {}
    n = None
    if rng.random() < .7:
        kw["arcSamples"] = n = rng.choice([3, 4, 8, 16, 37, 72])
    data = ["revolution", kind, z0, z1, steps, n, a, w, ph, zs, rs]
    ctx.case(data)
    s = u.makeRevolutionSolid(fn, z0, z1, steps, **kw)
    Z = [z0 + L * i / steps for i in range(steps + 1)]
    R = [abs(fn(z)) for z in Z]
    V = sum(math.pi * (Z[i + 1] - Z[i]) / 3 * (R[i] ** 2 + R[i] * R[i + 1] + R[i + 1] ** 2) for i in range(steps))
    if V < 1e-4:
        return
    if n:
        T = judge(ctx, "revolution", s, V * n / 2 * math.sin(2 * math.pi / n) / math.pi, (1 - 1e-4, 1 + 1e-4), data=data)
    else:
        T = judge(ctx, "revolution", s, V, (.97, 1 + 1e-4), data=data)
    if T is None:
        return
    P = T.reshape(-1, 3)
    h = np.hypot(P[:, 0], P[:, 1])
    ok = np.array([h[i] < 1e-5 or abs(h[i] - abs(fn(P[i, 2]))) < 1e-4 * (1 + h[i]) or min(abs(P[i, 2] - z) for z in Z) < 1e-5 * (1 + abs(P[i, 2])) and min(abs(h[i] - r) for r in R) < 1e-4 * (1 + h[i]) for i in range(len(P))])
    ctx.check(ok.all(), "revolution:vertices", lambda: f"revolution: vertex {P[~ok][0]} is off the contour; {data}")


def simple(rng, s=5.0, n=None):
    n = n or rng.randint(3, 10)
    base = rng.uniform(0, 6.28)
    da = 2 * math.pi / n
    rmin = rng.choice([.35, .7, 1.0])
    jit = rng.choice([0, .35])
    return [(lambda r, t: (r * math.cos(t), r * math.sin(t)))(s * rng.uniform(rmin, 1), base + (i + rng.uniform(-jit, jit)) * da) for i in range(n)]


def parea(v):
    return .5 * sum(v[i - 1][0] * v[i][1] - v[i][0] * v[i - 1][1] for i in range(len(v)))


def frame(rng):
    k = rng.random()
    if k < .4:
        return np.eye(3)
    a = np.array([rng.gauss(0, 1) for _ in range(3)])
    a /= np.linalg.norm(a)
    if k < .6:
        a = np.array(rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, -1), (-1, 0, 0)]), float)
    b = np.cross(a, (0, 0, 1) if abs(a[2]) < .9 else (1, 0, 0))
    b /= np.linalg.norm(b)
    return np.array([b, np.cross(a, b), a]).T   # columns x,y,normal


def extrudes(ctx, rng):
    sc = 10 ** rng.uniform(-.7, 1.2)
    v = simple(rng, 5 * sc)
    ctr = (sum(p[0] for p in v) / len(v), sum(p[1] for p in v) / len(v))
    holes = []
    if rng.random() < .5:
        # small holes around the centroid region, kept if well inside
        from gen2d import fdist, P, winding_inside
        V = [P(*p) for p in v] + [P(*v[0])]
        for _ in range(8):
            q = (rng.uniform(-3, 3) * sc, rng.uniform(-3, 3) * sc)
            r = rng.uniform(.2, .8) * sc
            if winding_inside(V, P(*q)) and fdist(V, P(*q)) > r * 1.2 and all(math.dist(q, o) > (r + w) * 1.1 for o, w, _ in holes):
                hv = [(q[0] + x, q[1] + y) for x, y in simple(rng, r, rng.randint(3, 6))]
                holes.append((q, r, hv))
            if len(holes) == 3:
                break
    if rng.random() < .4:
        v = v[::-1]
    if rng.random() < .3:      # collinear vertices
        j = rng.randrange(len(v))
        a, b = v[j - 1], v[j]
        v = v[:j] + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)] + v[j:]
    F = frame(rng)
    o = np.array(rpos(rng))
    up = lambda p: g.point(*(o + F @ np.array([p[0], p[1], 0])))
    close = lambda L: L + [list(L[0])]
    hs = [close([up(p) for p in (h[2] if rng.random() < .5 else h[2][::-1])]) for h in holes]
    outer = close([up(p) for p in v])
    A = abs(parea(v)) - sum(abs(parea(h[2])) for h in holes)
    surf, bd = g3.poly2surface(outer, hs)
    d = F @ np.array([0, 0, 1.0])
    k = rng.random()
    if k < .3:
        d = -d
    elif k < .55:
        d = F @ np.array([rng.uniform(-.6, .6), rng.uniform(-.6, .6), rng.choice([-1, 1])])
        d /= np.linalg.norm(d)
    h = 10 ** rng.uniform(-.5, 1.5) * sc
    data = ["extrude", v, [x[2] for x in holes], F.tolist(), o.tolist(), d.tolist(), h]
    ctx.case(data)
    ctx.ev("extrudes")
    before = repr(surf)
    default = np.allclose(d, (0, 0, 1), atol=1e-12) and rng.random() < .5
    s = u.extrude(surf, h) if default else u.extrude(surf, h, direction=g.vect(d[0], d[1], d[2], 0))
    ctx.check(repr(surf) == before, "extrude:mutates", "extrude changed the input surface")
    V = A * h * abs(float(d @ (F @ np.array([0, 0, 1.0]))))
    T = judge(ctx, "extrude", s, V, tol=1e-5, data=data)
    if T is None:
        return
    # every vertex is a profile vertex or that vertex displaced by h*d
    ref = np.array([(o + F @ np.array([p[0], p[1], 0])) for p in list(v) + [p for x in holes for p in x[2]]])
    ref = np.concatenate([ref, ref + h * d])
    Q = T.reshape(-1, 3)
    dist = np.array([np.linalg.norm(ref - q, axis=1).min() for q in np.unique(np.round(Q, 9), axis=0)])
    ctx.check(dist.max() < 1e-6 * (1 + np.abs(Q).max()), "extrude:vertices", lambda: f"extrude: a vertex is {dist.max()} away from the profile and its displaced copy; {data}")


def lofts(ctx, rng):
    n = rng.randint(3, 9)
    m = rng.choice([2, 2, 3, 4, 5])
    base = simple(rng, 5, n)
    if rng.random() < .4:
        base = base[::-1]
    prof = []
    z = rng.uniform(-10, 10)
    for i in range(m):
        k = rng.uniform(.5, 1.5)
        dx, dy = rng.uniform(-2, 2), rng.uniform(-2, 2)
        prof.append([(p[0] * k + dx, p[1] * k + dy, z) for p in base])
        z += rng.uniform(.5, 5)
    if rng.random() < .3:
        prof.reverse()
    F = frame(rng) if rng.random() < .4 else np.eye(3)
    o = np.array(rpos(rng))
    cl = rng.random() < .4
    L = [[g.point(*(o + F @ np.array(p))) for p in pr] for pr in prof]
    if cl:
        L = [x + [list(x[0])] for x in L]
    data = ["loft", prof, F.tolist(), o.tolist(), cl]
    ctx.case(data)
    ctx.ev("lofts")
    before = repr(L)
    s = u.makeLoftSolid(L[0], L[1]) if m == 2 and rng.random() < .6 else u.loft(L)
    ctx.check(repr(L) == before, "loft:mutates", "loft changed its profiles")
    V = 0
    for a, b in zip(prof, prof[1:]):   # similar sections scaled k: exact prismatoid
        A0, A1 = abs(parea(a)), abs(parea(b))
        V += abs(b[0][2] - a[0][2]) / 3 * (A0 + A1 + math.sqrt(A0 * A1))
    T = judge(ctx, "loft", s, V, tol=1e-5, data=data)
    if T is None:
        return
    ref = np.array([o + F @ np.array(p) for pr in prof for p in pr])
    Q = np.unique(np.round(T.reshape(-1, 3), 9), axis=0)
    dd = max(float(np.linalg.norm(ref - q, axis=1).min()) for q in Q)
    ctx.check(dd < 1e-6 * (1 + np.abs(ref).max()), "loft:vertices", lambda: f"loft: a vertex is {dd} away from every profile vertex; {data}")
    miss = max(float(np.linalg.norm(Q - q, axis=1).min()) for q in ref)
    ctx.check(miss < 1e-6 * (1 + np.abs(ref).max()), "loft:profile-missing", lambda: f"loft: profile vertex not in the solid; {data}")


def rsolid(rng):
    k = rng.choice(["prism", "sphere", "conic", "tube"])
    c = g.point(*rpos(rng))
    if k == "prism":
        return u.prism(rsize(rng), rsize(rng), rsize(rng), c)
    if k == "sphere":
        return u.sphere(rsize(rng), c, depth=1)
    if k == "conic":
        return u.conic(rsize(rng), rsize(rng), rsize(rng), c, angr=30)
    return u.tube(5, 1, rsize(rng), base_point=c, minang=30)


def stacks(ctx, rng):
    axis = rng.choice("xyzXYZ")
    ai = "xyz".index(axis.lower())
    align = rng.choice(["center", "min", "max"])
    start = rng.choice([0.0, rng.uniform(-20, 20)])
    gap = rng.choice([0.0, rng.uniform(0, 5)])
    items, want = [], []
    cur = start
    boxes = []
    for _ in range(rng.randint(1, 5)):
        while rng.random() < .3:
            v = rng.choice([1.5, 3.0, -1.0, 10.0])
            items.append(rng.choice([f"space:{v}", f" Space: {v} "]))
            cur += v
        s = rsolid(rng)
        lo, hi = M.box(M.tris(s))
        items.append(s)
        want.append((cur, lo, hi))
        cur += hi[ai] - lo[ai] + gap
    ctx.case(["stack", axis, align, start, gap, [x if isinstance(x, str) else 0 for x in items], [w[0] for w in want]])
    ctx.ev("stacks")
    before = repr(items)
    out = u.stack_solids(items, axis=axis, start=start, gap=gap, align=align)
    ctx.check(repr(items) == before, "stack:mutates", "stack_solids changed its inputs")
    if not ctx.check(len(out) == len(want), "stack:count", f"stack_solids returned {len(out)} solids for {len(want)}"):
        return
    solids = [x for x in items if not isinstance(x, str)]
    ref = None
    for o, i, (c, lo, hi) in zip(out, solids, want):
        a, b = M.tris(o), M.tris(i)
        dlt = a - b
        t = dlt.reshape(-1, 3)[0]
        ctx.check(abs(dlt - t).max() < 1e-7, "stack:rigid", "stack_solids did not translate rigidly")
        l2, h2 = M.box(a)
        ctx.check(abs(l2[ai] - c) < 1e-6, "stack:position", lambda: f"stack_solids {axis} {align}: solid starts at {l2[ai]}, expected {c}")
        if ref is None:
            ref = (lo, hi)
        for j in range(3):
            if j != ai:
                g_, e_ = {"center": ((l2[j] + h2[j]) / 2, (ref[0][j] + ref[1][j]) / 2), "min": (l2[j], ref[0][j]), "max": (h2[j], ref[1][j])}[align]
                ctx.check(abs(g_ - e_) < 1e-6, "stack:align", lambda: f"stack_solids {axis} align={align}: coordinate {j} at {g_}, expected {e_}")


def refusals(ctx, rng):
    P = g.point
    sq = [P(0, 0), P(4, 0), P(4, 3), P(0, 3), P(0, 0)]
    x = rng.uniform(.5, 5)
    bad = -rng.choice([0.0, x])
    cases = {
        "conic-r": lambda: u.conic(bad, 1, 1), "conic-top": lambda: u.conic(1, -x, 1), "conic-h": lambda: u.conic(1, 1, bad),
        "conic-angr": lambda: u.conic(1, 1, 1, angr=rng.choice([.5, 46, 90])),
        "tube-wall": lambda: u.tube(x, bad, 1), "tube-thick": lambda: u.tube(x, x / 2 + .1, 1), "tube-len": lambda: u.tube(x, x / 8, bad),
        "ctube-thick": lambda: u.conic_tube(x, x / 2, x / 4 + .01, 1), "shell-thick": lambda: u.spherical_shell(x, x / 2 + .1),
        "shell-wall": lambda: u.spherical_shell(x, bad), "extrude-h": lambda: u.extrude(g3.poly2surface(sq)[0], bad),
        "extrude-notsurf": lambda: u.extrude(sq, 1),
        "loft-one": lambda: u.loft([sq]), "loft-count": lambda: u.makeLoftSolid(sq[:4], [P(0, 0, 5), P(1, 0, 5), P(1, 1, 5)]),
        "stack-axis": lambda: u.stack_solids([u.prism(1, 1, 1)], axis="w"), "stack-align": lambda: u.stack_solids([u.prism(1, 1, 1)], align="left"),
        "stack-dir": lambda: u.stack_solids([u.prism(1, 1, 1), "gap:3", u.prism(1, 1, 1)]),
        "stack-val": lambda: u.stack_solids([u.prism(1, 1, 1), "space:abc", u.prism(1, 1, 1)]),
        "ctube-len": lambda: u.conic_tube(x, x, x / 8, bad),
    }
    for nme, fn in cases.items():
        ctx.ev("refusals")
        try:
            fn()
        except (ValueError, TypeError):
            continue
        ctx.viol("accepts:" + nme, f"{nme}: invalid arguments were accepted (x={x} bad={bad})")
    ctx.case(["refuse", x, bad])


def openclosed(ctx, rng):
    """issolidclosed/volumeof on solids with faces removed or flipped"""
    s = rsolid(rng)
    T = M.tris(s)
    import copy
    t = copy.deepcopy(s)
    sf = rng.choice(t[1])
    if not sf[3]:
        return
    j = rng.randrange(len(sf[3]))
    f = sf[3][j]
    a = np.array([sf[1][i][:3] for i in f])
    if np.linalg.norm(np.cross(a[1] - a[0], a[2] - a[0])) < 1e-4 or min(np.linalg.norm(a[i] - a[i - 1]) for i in range(3)) < 1e-2:
        return
    del sf[3][j]
    ctx.ev("open_solids")
    ctx.case(["open", j, len(T)])
    ctx.check(g3.issolidclosed(s), "closed:false", "issolidclosed is False for a primitive")
    ctx.check(not g3.issolidclosed(t), "open:true", "issolidclosed is True with one face removed")
    try:
        v = g3.volumeof(t)
        ctx.viol("open:volume", f"volumeof returned {v} for a solid with a hole")
    except ValueError:
        pass
    # an edge shared by more than two faces is no boundary of a solid either
    t = copy.deepcopy(s)
    sf = rng.choice(t[1])
    j = rng.randrange(max(1, len(sf[3])))
    a = np.array([sf[1][i][:3] for i in sf[3][j]]) if sf[3] else np.zeros((3, 3))
    if min(np.linalg.norm(a[i] - a[i - 1]) for i in range(3)) > 1e-2:
        sf[3].append(list(sf[3][j]) if rng.random() < .5 else [sf[3][j][0], sf[3][j][2], sf[3][j][1]])
        ctx.ev("overfull_solids")
        ctx.check(not g3.issolidclosed(t), "overfull:true", "issolidclosed is True with a face listed twice")
    # a solid given inside out has the same volume
    t = copy.deepcopy(s)
    t[1] = [g3.reversesurface(x) for x in t[1]]
    ctx.check(abs(g3.volumeof(t) - g3.volumeof(s)) <= 1e-9 * g3.volumeof(s) + 1e-12, "volume:reversed", lambda: f"volumeof {g3.volumeof(s)} becomes {g3.volumeof(t)} when all faces are reversed")
    # translation far away keeps the volume
    d = [rng.uniform(-300, 300) for _ in range(3)]
    v1, v2 = g3.volumeof(s), g3.volumeof(g3.translatesolid(s, g.point(*d)))
    ctx.check(abs(v1 - v2) <= 1e-6 * v1 + 1e-6, "volume:translation", lambda: f"volumeof changes from {v1} to {v2} when the solid is moved by {d}")


def segs(ctx, rng):
    r = 10 ** rng.uniform(-2, 3.5)
    lo = rng.choice([3, 8, 16])
    hi = rng.choice([36, 180, 360])
    k = rng.random()
    kw = dict(min_segments=lo, max_segments=hi)
    if k < .4:
        kw["chord_error"] = e = r * 10 ** rng.uniform(-5, 0.3)
    elif k < .8:
        kw["max_chord"] = m = r * 10 ** rng.uniform(-4, 0.5)
    n = u.adaptive_arc_segments(r, **kw)
    ctx.case(["segs", r, kw])
    ctx.check(isinstance(n, int) and lo <= n <= hi, "segments:range", lambda: f"adaptive_arc_segments({r},{kw})={n}")
    if n < hi:
        if "chord_error" in kw:
            ctx.check(r * (1 - math.cos(math.pi / n)) <= e * (1 + 1e-9), "segments:sagitta", lambda: f"adaptive_arc_segments({r},{kw})={n}: sagitta {r*(1-math.cos(math.pi/n))}")
        if "max_chord" in kw and m < 1.9 * r:
            ctx.check(2 * r * math.sin(math.pi / n) <= m * (1 + 1e-9), "segments:chord", lambda: f"adaptive_arc_segments({r},{kw})={n}: chord {2*r*math.sin(math.pi/n)}")
    if n > lo and n > 4:
        q = n - 1
        if "chord_error" in kw and e < .5 * r:
            ctx.check(r * (1 - math.cos(math.pi / q)) >= e * (1 - 1e-6), "segments:excess", lambda: f"adaptive_arc_segments({r},{kw})={n}, {q} would do")
        if "max_chord" in kw and m < 1.9 * r:
            ctx.check(2 * r * math.sin(math.pi / q) >= m * (1 - 1e-6), "segments:excess", lambda: f"adaptive_arc_segments({r},{kw})={n}, {q} would do")
    ctx.check(u.adaptive_arc_segments(r * 2, **({**kw})) >= n or "chord_error" not in kw and "max_chord" not in kw, "segments:monotone", lambda: f"adaptive_arc_segments: fewer segments for a larger radius {r} {kw}")


GROUPS = {
    "polyhedra": (polyhedra, 300), "round": (round_, 160), "conics": (conics, 300), "tubes": (tubes, 240), "shells": (shells, 60),
    "revolution": (revolution, 240), "extrudes": (extrudes, 320), "lofts": (lofts, 240), "stacks": (stacks, 150), "refusals": (refusals, 12),
    "openclosed": (openclosed, 120), "segs": (segs, 1500),
}
if __name__ == "__main__":
    vf.main(globals())
