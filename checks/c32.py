import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json, math
import vf

PROP = "C32"
LEVEL = "exploration"
META = dict(
    title="Native BREP: exact surfaces, checked topology, faces that move with the solid",
    statement="Analytic planes, spheres, cylinders, cones, tori and (rational) B-spline surfaces evaluate to points of the surface their parameters describe, over the whole parameter range, with unit normals that are perpendicular to it and point outward; their tessellations lie on them, cover the range, and are wound with the normals; malformed definitions are refused. Edges run from their start to their end vertex, arcs with the included angle and direction of their bulge or centre. A topology graph reports a shell closed exactly if no edge is used once or more than twice, refuses a shell that claims to be closed but is not, and answers adjacency queries with exactly the stored entities. A solid is refused exactly if a shell is open, two shells intersect or a void is not inside the outer shell; point containment agrees with the tessellated shell, also after the graph is moved. Serialising to JSON and back, or attaching to a solid and reading back, loses nothing. Translating, rotating, mirroring or scaling a solid moves every vertex, edge and face of its attached BREP, orientation included, and leaves the original alone.",
    over=["inputs", "histories"], q="for all surfaces and parameters, topologies, shells and sequences of transformations",
    why="STEP export and meshing prefer the attached BREP to the mesh: a face that did not move with the solid is what gets made.",
    files=["src/yapcad/native_brep.py", "src/yapcad/analytic_surfaces.py", "src/yapcad/geom3d.py"],
    mech=[("TopologyGraph", "src/yapcad/native_brep.py"), ("transform_topology_graph", "src/yapcad/native_brep.py"), ("serialize_topology_graph", "src/yapcad/native_brep.py"), ("evaluate_surface", "src/yapcad/analytic_surfaces.py"), ("tessellate_surface", "src/yapcad/analytic_surfaces.py")],
    technique="random surfaces against their implicit equations and scipy splines; random topologies and transformation histories against a reference model",
    note="Exploration. Out of the claim: partial spheres under rotation (the format has no axis for them), arcs out of the xy plane (documented), circle and spline edges evaluated as curves (they are lines without OCC), trimming of faces by their loops in tessellations, negative scale factors, and the conversion to and from OCC (not installed).",
)
RULE = "random surfaces, edges, topologies, shells and transformations; distinct by the recipe"
REQUIRE = {"surface": 500, "point": 5000, "refused": 60, "edge": 400, "arc": 250, "topology": 250, "closed": 60, "open": 60, "claim": 80, "roundtrip": 120, "attached": 60, "solid": 100, "valid": 25, "crossing": 15, "outside": 10, "contains": 1500, "moved": 150, "face": 400, "mirrored": 25, "scaled": 40}
WALL_QUICK = 240


def init():
    global np, N, A, g, g3, gu, mesh3, gen3, cKDTree, BSpline
    import numpy as np
    from scipy.spatial import cKDTree
    from scipy.interpolate import BSpline
    import mesh3, gen3
    import yapcad.native_brep as N
    import yapcad.analytic_surfaces as A
    import yapcad.geom as g
    import yapcad.geom3d as g3
    import yapcad.geom3d_util as gu


def vec(rng, s=5.0):
    return [rng.uniform(-s, s) for _ in range(3)]


def direction(rng):
    if rng.random() < .4:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        return v
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if sum(c * c for c in v) > .05:
            return [c * rng.choice([1, 3]) for c in v]


def span(rng, full):
    if rng.random() < .5:
        return full
    a, b = sorted(rng.uniform(*full) for _ in range(2))
    return (a, b) if b - a > .1 else full


def knots(rng, n, p):
    k = rng.random()
    if k < .6:     # clamped
        inner = sorted(rng.uniform(0, 1) for _ in range(n - p - 1)) if rng.random() < .6 else [i / (n - p) for i in range(1, n - p)]
        if len(inner) > 1 and p > 1 and rng.random() < .2:
            inner[1] = inner[0]
        K = [0.0] * (p + 1) + inner + [1.0] * (p + 1)
        s, o = rng.choice([(1, 0), (2.5, 0), (1, -3)])
        return [x * s + o for x in K]
    return [float(i) for i in range(n + p + 1)]


KINDS = ["plane", "sphere", "cylinder", "cone", "torus", "bspline", "tess"]


def mk(rng, kind=None, fullsphere=False):
    """(kind, surface, recipe)"""
    kind = kind or rng.choice(KINDS[:6])
    o, d = vec(rng), direction(rng)
    T2 = (0.0, 2 * math.pi)
    if kind == "plane":
        ur, vr = sorted([rng.uniform(-4, 4), rng.uniform(-4, 4)]), sorted([rng.uniform(-4, 4), rng.uniform(-4, 4)])
        if ur[1] - ur[0] < .2 or vr[1] - vr[0] < .2:
            ur, vr = (-1, 1), (-2, 1)
        r = dict(o=o, d=d, ur=ur, vr=vr)
        s = A.plane_surface(g.point(*o), d, u_range=tuple(ur), v_range=tuple(vr))
    elif kind == "sphere":
        r = dict(o=o, R=rng.uniform(.2, 5), ur=T2 if fullsphere else span(rng, T2), vr=(-math.pi / 2, math.pi / 2) if fullsphere else span(rng, (-math.pi / 2, math.pi / 2)))
        s = A.sphere_surface(g.point(*o), r["R"], u_range=r["ur"], v_range=r["vr"])
    elif kind == "cylinder":
        r = dict(o=o, d=d, R=rng.uniform(.2, 5), ur=span(rng, T2), vr=span(rng, (-3.0, 6.0)))
        s = A.cylinder_surface(g.point(*o), d, r["R"], u_range=r["ur"], v_range=r["vr"])
    elif kind == "cone":
        r = dict(o=o, d=d, a=rng.uniform(.1, 1.4), ur=span(rng, T2), vr=(rng.uniform(.05, 2), rng.uniform(2.5, 6)))
        s = A.cone_surface(g.point(*o), d, r["a"], u_range=r["ur"], v_range=r["vr"])
    elif kind == "torus":
        r = dict(o=o, d=d, R=rng.uniform(2, 6), r=rng.uniform(.2, 1.8), ur=span(rng, T2), vr=span(rng, T2))
        s = A.torus_surface(g.point(*o), d, r["R"], r["r"], u_range=r["ur"], v_range=r["vr"])
    elif kind == "bspline":
        p, q = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        nu, nv = rng.randint(p + 1, p + 3), rng.randint(q + 1, q + 3)
        cp = [[[i + rng.uniform(-.2, .2), j + rng.uniform(-.2, .2), rng.uniform(-1, 1)] for i in range(nu)] for j in range(nv)]
        w = [[rng.uniform(.5, 2) for _ in range(nu)] for _ in range(nv)] if rng.random() < .5 else None
        r = dict(cp=cp, U=knots(rng, nu, p), V=knots(rng, nv, q), p=p, q=q, w=w)
        s = A.bspline_surface(cp, r["U"], r["V"], p, q, weights=w)
    else:
        m = gen3.surf(rng)
        r = dict(n=len(m[1]), f=len(m[3]), seed=rng.random())
        s = A.tessellated_surface(m[1], m[2], m[3])
    return kind, s, r


def unit(v):
    v = np.array(v[:3], float)
    return v / np.linalg.norm(v)


def spline(r):
    cp, w = np.array(r["cp"]), np.array(r["w"] if r["w"] else np.ones(np.array(r["cp"]).shape[:2]))
    H = np.concatenate([cp * w[..., None], w[..., None]], axis=2)

    def at(u, v):
        row = BSpline(r["V"], H, r["q"])(v)        # over j
        x = BSpline(r["U"], row, r["p"])(u)
        return x[:3] / x[3]
    return at


def residual(kind, r, P, n):
    """distance of P from the surface, cosine of n with the outward normal"""
    P, n = np.array(P[:3]), np.array(n[:3])
    o = np.array(r["o"])
    if kind == "sphere":
        d = P - o
        return abs(np.linalg.norm(d) - r["R"]), n @ d / np.linalg.norm(d)
    a = unit(r["d"])
    h = (P - o) @ a
    if kind == "plane":
        return abs(h), n @ a
    q = (P - o) - h * a
    rho = np.linalg.norm(q)
    e = q / rho
    if kind == "cylinder":
        return abs(rho - r["R"]), n @ e
    if kind == "cone":
        return abs(rho * math.cos(r["a"]) - h * math.sin(r["a"])), n @ (math.cos(r["a"]) * e - math.sin(r["a"]) * a)
    c = o + e * r["R"]
    return abs(np.linalg.norm(P - c) - r["r"]), n @ unit(P - c)


def surface(ctx, rng):
    kind, s, r = mk(rng)
    ctx.ev("surface")
    ctx.ev("surface:" + kind)
    ctx.case([kind, r])
    data = {"kind": kind, **r}
    ctx.check(A.is_analytic_surface(s) and getattr(A, "is_%s_surface" % kind)(s) and sum(bool(getattr(A, "is_%s_surface" % (k if k != "tess" else "tessellated"))(s)) for k in KINDS) == 1, "surface:kind", f"{kind} surface not recognised as exactly that", data)
    before = repr(s)
    (u0, u1), (v0, v1) = s[2]["u_range"], s[2]["v_range"]
    if kind == "bspline":
        at = spline(r)
        ctx.check((u0, u1) == (r["U"][r["p"]], r["U"][len(r["cp"][0])]) and (v0, v1) == (r["V"][r["q"]], r["V"][len(r["cp"])]), "surface:range", lambda: f"{(u0, u1)}, {(v0, v1)}", data)
    else:
        ctx.check(tuple(map(float, r["ur"])) == tuple(map(float, (u0, u1))) and tuple(map(float, r["vr"])) == tuple(map(float, (v0, v1))), "surface:range", lambda: f"{(u0, u1)}, {(v0, v1)}", data)
    pts = [(u0, v0), (u1, v1), (u0, v1), (u1, v0)] + [(rng.uniform(u0, u1), rng.uniform(v0, v1)) for _ in range(8)]
    for u, v in pts:
        ctx.ev("point")
        P, n = A.evaluate_surface(s, u, v), A.surface_normal(s, u, v)
        ctx.check(g.ispoint(P) and len(n) == 4 and n[3] == 0 and abs(np.linalg.norm(n) - 1) < 1e-9, "surface:unit", lambda: f"at ({u}, {v}): point {P}, normal {n}", data)
        h = 1e-5
        if kind == "bspline":
            want = at(u, v)
            ctx.check(np.abs(np.array(P[:3]) - want).max() < 1e-7, "surface:spline", lambda: f"at ({u}, {v}) {P}, the spline is at {want}", data)
            i = min(range(len(r["U"])), key=lambda i: abs(r["U"][i] - u))
            hu, hv = (h if u + h <= u1 else -h), (h if v + h <= v1 else -h)
            tu, tv = (at(u + hu, v) - want) / hu, (at(u, v + hv) - want) / hv
        else:
            res, cos = residual(kind, r, P, n)
            ctx.check(res < 1e-7, "surface:equation", lambda: f"{kind}: the point at ({u}, {v}) is {res} off the surface", data)
            ctx.check(cos > 1 - 1e-7, "surface:outward", lambda: f"{kind}: the normal at ({u}, {v}) makes {math.degrees(math.acos(max(-1, min(1, cos))))} degrees with the outward one", data)
            q = np.array(P[:3])
            tu, tv = (np.array(A.evaluate_surface(s, u + h, v)[:3]) - q) / h, (np.array(A.evaluate_surface(s, u, v + h)[:3]) - q) / h
        cr = np.cross(tu, tv)
        if np.linalg.norm(cr) > .05 * np.linalg.norm(tu) * np.linalg.norm(tv) and np.linalg.norm(cr) > 1e-2:
            ctx.check(n[:3] @ cr / np.linalg.norm(cr) > 1 - 1e-3, "surface:tangent", lambda: f"{kind}: normal {n} at ({u}, {v}) against tangents {tu}, {tv}", data)
    # the parameters have their documented meaning
    u, v = rng.uniform(u0, u1), rng.uniform(v0, v1)
    P = np.array(A.evaluate_surface(s, u, v)[:3])
    if kind in ("cylinder", "cone"):
        h = (P - np.array(r["o"])) @ unit(r["d"])
        ctx.check(abs(h - (v if kind == "cylinder" else v * math.cos(r["a"]))) < 1e-7, "surface:v", lambda: f"{kind}: v = {v}, height {h}", data)
    elif kind == "torus":
        ctx.check(abs((P - np.array(r["o"])) @ unit(r["d"]) - r["r"] * math.sin(v)) < 1e-7, "surface:v", lambda: f"v = {v}", data)
    elif kind == "sphere":
        d = (P - np.array(r["o"])) / r["R"]
        ctx.check(abs(d[2] - math.sin(v)) < 1e-7 and (math.cos(v) < 1e-3 or abs(math.remainder(math.atan2(d[1], d[0]) - u, 2 * math.pi)) < 1e-6), "surface:v", lambda: f"({u}, {v}) at {d}", data)
    elif kind == "plane":
        ctx.check(abs(np.linalg.norm(P - np.array(r["o"])) - math.hypot(u, v)) < 1e-7, "surface:v", lambda: f"({u}, {v}) is {np.linalg.norm(P - np.array(r['o']))} from the origin", data)
    if kind in ("cylinder", "cone", "torus"):       # u turns once, right-handed about the axis
        a, b = [np.array(A.evaluate_surface(s, x, v)[:3]) - np.array(r["o"]) for x in (u, u + .7)]
        ax = unit(r["d"])
        a, b = a - (a @ ax) * ax, b - (b @ ax) * ax
        ctx.check(abs(math.atan2(np.cross(a, b) @ ax, a @ b) - .7) < 1e-6, "surface:u", lambda: f"{kind}: u + 0.7 turned by {math.atan2(np.cross(a, b) @ ax, a @ b)}", data)
    nu, nv = rng.randint(1, 9), rng.randint(1, 9)
    m = A.tessellate_surface(s, u_divisions=nu, v_divisions=nv)
    ctx.check(m[0] == "surface" and len(m[1]) == len(m[2]) == (nu + 1) * (nv + 1) and len(m[3]) == 2 * nu * nv, "tess:count", lambda: f"{len(m[1])} vertices, {len(m[3])} triangles for {nu} x {nv}", data)
    grid = [A.evaluate_surface(s, u0 + (u1 - u0) * i / nu, v0 + (v1 - v0) * j / nv) for j in range(nv + 1) for i in range(nu + 1)]
    ctx.check(np.abs(np.array(m[1]) - np.array(grid)).max() < 1e-7, "tess:on", "tessellation vertices are not the surface points of the grid", data)
    V, F = np.array(m[1])[:, :3], np.array(m[3])
    cells = {}
    for t in F:
        ij = [(x % (nu + 1), x // (nu + 1)) for x in t]
        lo = (min(a for a, b in ij), min(b for a, b in ij))
        cells.setdefault(lo, []).append(set(map(int, t)))
        ar = sum(ij[k][0] * ij[(k + 1) % 3][1] - ij[(k + 1) % 3][0] * ij[k][1] for k in range(3))
        ctx.check(ar == 1, "tess:winding", lambda: f"triangle {t} is wound against the parameters", data)
    ctx.check(len(cells) == nu * nv and all(len(c) == 2 and len(c[0] | c[1]) == 4 for c in cells.values()), "tess:cover", "the triangles do not cover every cell once", data)
    B = m[4]
    rim = {(i, j) for i in range(nu + 1) for j in range(nv + 1) if i in (0, nu) or j in (0, nv)}
    ij = [(x % (nu + 1), x // (nu + 1)) for x in B]
    ctx.check(set(ij) == rim and len(B) == len(rim) and all(abs(a - c) + abs(b - d) == 1 for (a, b), (c, d) in zip(ij, ij[1:] + ij[:1])), "tess:boundary", lambda: f"boundary {B} for {nu} x {nv}", data)
    ctx.check(repr(s) == before, "surface:mutated", "evaluation changed the surface", data)


def refused(ctx, rng):
    bad = [lambda: A.plane_surface(g.point(0, 0, 0), [0, 0, 0]), lambda: A.sphere_surface(g.point(0, 0, 0), rng.choice([0, -1])), lambda: A.cylinder_surface(g.point(0, 0, 0), [0, 0, 0], 1),
           lambda: A.cylinder_surface(g.point(0, 0, 0), [0, 0, 1], rng.choice([0, -2])), lambda: A.cone_surface(g.point(0, 0, 0), [0, 0, 0], .5), lambda: A.cone_surface(g.point(0, 0, 0), [0, 0, 1], rng.choice([0, math.pi / 2, -.1, 2])),
           lambda: A.torus_surface(g.point(0, 0, 0), [0, 0, 0], 3, 1), lambda: A.torus_surface(g.point(0, 0, 0), [0, 0, 1], rng.choice([0, -1]), 1), lambda: A.torus_surface(g.point(0, 0, 0), [0, 0, 1], 3, rng.choice([0, -1])),
           lambda: A.bspline_surface([[[0, 0, 0], [1, 0, 0]]], [0, 0, 1, 1], [0, 1], 1, 0), lambda: A.bspline_surface([[[0, 0, 0], [1, 0, 0]], [[0, 1, 0]]], [0, 0, 1, 1], [0, 0, 1, 1], 1, 1),
           lambda: A.bspline_surface([[[0, 0, 0], [1, 0, 0]], [[0, 1, 0], [1, 1, 0]]], [0, 0, 1], [0, 0, 1, 1], 1, 1), lambda: A.bspline_surface([[[0, 0, 0], [1, 0, 0]], [[0, 1, 0], [1, 1, 0]]], [0, 0, 1, 1], [0, 0, 0, 1, 1], 1, 1),
           lambda: A.bspline_surface([[[0, 0], [1, 0, 0]], [[0, 1, 0], [1, 1, 0]]], [0, 0, 1, 1], [0, 0, 1, 1], 1, 1), lambda: A.tessellated_surface([[0, 0]], [[0, 0, 1]], []), lambda: A.tessellated_surface([[0, 0, 1]], [[0, 1]], []),
           lambda: A.evaluate_surface(["surface", [], [], []], 0, 0), lambda: A.surface_normal("plane", 0, 0), lambda: A.tessellate_surface(None), lambda: A.evaluate_cone_surface(A.sphere_surface(g.point(0, 0, 0), 1), 0, 0),
           lambda: A.cylinder_surface_normal(A.plane_surface(g.point(0, 0, 0), [0, 0, 1]), 0, 0), lambda: N.arc_edge("a", "b"), lambda: N.bspline_edge("a", "b", [[0, 0, 0], [1, 0, 0]], [0, 0, 1], 1),
           lambda: N.vertices_coincident([1], [2]), lambda: N.evaluate_edge_curve(["x"], g.point(0, 0), g.point(1, 0)), lambda: N.vertex_id(["brep_vertex"]), lambda: N.edge_id("x"), lambda: N.trim_id([]), lambda: N.loop_id(None), lambda: N.face_id({}),
           lambda: N.shell_id(["brep_shell"]), lambda: N.solid_id(["solid", [], []])]
    gr = N.TopologyGraph()
    v = N.brep_vertex([0, 0, 0])
    bad += [lambda: gr.add_vertex(N.line_edge(v, v)), lambda: gr.add_edge(v), lambda: gr.add_trim(v), lambda: gr.add_loop(v), lambda: gr.add_face(v), lambda: gr.add_shell(v), lambda: gr.add_solid(v), lambda: gr.evaluate_edge("none"),
            lambda: gr.shell_edge_usage("none"), lambda: gr.shell_bbox("none"), lambda: gr.shell_contains_point("none", g.point(0, 0, 0)), lambda: gr.validate_solid("none"), lambda: gr.compute_shell_closure("none")]
    i = rng.randrange(len(bad))
    ctx.ev("refused")
    ctx.case(["bad", i, rng.random()])
    try:
        out = bad[i]()
        ctx.viol("refused:accepted", f"malformed call {i} gave {out!r}"[:300], {"i": i})
    except ValueError:
        pass
    e = N.line_edge("nowhere", "v2")
    gr.add_edge(e)
    try:
        gr.evaluate_edge(N.edge_id(e))
        ctx.viol("refused:dangling", "an edge without vertices was evaluated", {})
    except ValueError:
        pass


def walk(c, n=24):
    return [np.array(g.sample(c, i / n)[:3]) for i in range(n + 1)]


def edge(ctx, rng):
    z = rng.choice([0, rng.uniform(-5, 5)])
    a = [rng.uniform(-5, 5), rng.uniform(-5, 5), z]
    t = rng.uniform(0, 2 * math.pi)
    k = rng.choice(["line", "bulge", "bulge", "center", "center", "ellipse"])
    L = rng.uniform(.5, 6)
    b = [a[0] + L * math.cos(t), a[1] + L * math.sin(t), z if k != "line" else rng.uniform(-5, 5)]
    ctx.ev("edge")
    tags = {"k": 1}
    if k == "bulge":
        bulge = rng.choice([-1, 1]) * math.exp(rng.uniform(-2, 1.2))
        make, want = (lambda v, w: N.arc_edge(v, w, bulge=bulge, tags=tags)), 4 * math.atan(bulge)
        rec = bulge
    elif k == "center":
        want = rng.choice([-1, 1]) * rng.uniform(.2, 6)
        R = L / 2 / math.sin(abs(want) / 2)
        # the centre is to the left of the chord for a short CCW arc
        d = math.sqrt(max(0, R * R - L * L / 4)) * (1 if abs(want) < math.pi else -1) * (1 if want > 0 else -1)
        c = [(a[0] + b[0]) / 2 - math.sin(t) * d, (a[1] + b[1]) / 2 + math.cos(t) * d, z]
        rec = want
        make = lambda v, w: N.arc_edge(v, w, center=rng.choice([c, g.point(*c), tuple(c)]), orientation=1 if want > 0 else -1, tags=tags)
    elif k == "line":
        rec = 0
        make = lambda v, w: N.line_edge(v, w, tags=tags)
    else:
        rec = ell = dict(semi_major=rng.uniform(2, 4), semi_minor=rng.uniform(.5, 2), rotation=rng.uniform(0, 360), start_angle=rng.uniform(0, 180), end_angle=rng.uniform(200, 350))
        make = lambda v, w: N.brep_edge("ellipse", v, w, curve_params=dict(ell, center=g.point(*a)))
    data = {"kind": k, "a": a, "b": b, "rec": rec}
    ctx.case(data)
    G = N.TopologyGraph()
    v, w = N.brep_vertex(rng.choice([a, g.point(*a)])), N.brep_vertex(g.point(*b))
    G.add_vertex(v)
    G.add_vertex(w)
    byid = rng.random() < .4
    e = make(N.vertex_id(v), N.vertex_id(w)) if byid else make(v, w)
    ctx.check(N.edge_vertices(e) == (N.vertex_id(v), N.vertex_id(w)) or list(N.edge_vertices(e)) == [N.vertex_id(v), N.vertex_id(w)], "edge:vertices", lambda: f"{N.edge_vertices(e)}", data)
    G.add_edge(e)
    c = G.evaluate_edge(N.edge_id(e))
    if k == "ellipse":
        th = math.radians(ell["rotation"])
        for P in walk(c):
            d = P - np.array(a)
            x, y = d[0] * math.cos(th) + d[1] * math.sin(th), -d[0] * math.sin(th) + d[1] * math.cos(th)
            ctx.check(abs((x / ell["semi_major"]) ** 2 + (y / ell["semi_minor"]) ** 2 - 1) < 1e-6, "edge:ellipse", lambda: f"{P} is off the ellipse", data)
        return
    W = walk(c)
    ctx.check(np.abs(W[0] - a).max() < 1e-6 and np.abs(W[-1] - b).max() < 1e-6, "edge:ends", lambda: f"{k} edge runs from {W[0]} to {W[-1]}, its vertices are {a} and {b}", data)
    if k == "line":
        return
    ctx.ev("arc")
    # turning angle of the sampled polyline: n segments turn by (n-1)/n of the arc
    turn = 0
    S = [W[i + 1] - W[i] for i in range(len(W) - 1)]
    for p, q in zip(S, S[1:]):
        turn += math.atan2(p[0] * q[1] - p[1] * q[0], p[0] * q[0] + p[1] * q[1])
    turn *= len(S) / (len(S) - 1)
    ctx.check(abs(turn - want) < 1e-4 and all(abs(P[2] - z) < 1e-9 for P in W), "edge:turn", lambda: f"the arc turns by {math.degrees(turn)} degrees, expected {math.degrees(want)}", data)
    ctx.check(abs(g.length(c) - abs(want) * L / 2 / math.sin(abs(want) / 2)) < 1e-5 * (1 + g.length(c)), "edge:length", lambda: f"length {g.length(c)}", data)


# ---------------------------------------------------------------- topology

def polyhedron(rng):
    """(vertices, polygons)"""
    k = rng.choice(["prism", "tetra", "torus", "hull"])
    if k == "prism":
        n = rng.randint(3, 6)
        V = [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), z] for z in (0, 1) for i in range(n)]
        return V, [list(range(n))[::-1], list(range(n, 2 * n))] + [[i, (i + 1) % n, n + (i + 1) % n, n + i] for i in range(n)]
    if k == "tetra":
        return [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]
    if k == "torus":
        n, m = rng.randint(3, 4), rng.randint(3, 4)
        V = [[(3 + math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n), (3 + math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n), math.sin(2 * math.pi * j / m)] for i in range(n) for j in range(m)]
        return V, [[i * m + j, (i + 1) % n * m + j, (i + 1) % n * m + (j + 1) % m, i * m + (j + 1) % m] for i in range(n) for j in range(m)]
    from scipy.spatial import ConvexHull
    r = np.random.RandomState(rng.randrange(2 ** 31))
    P = r.normal(size=(rng.randint(5, 9), 3))
    return P.tolist(), ConvexHull(P).simplices.tolist()


def build(rng, V, polys, G=None, surf=None, closed=None, tags=None):
    """a graph with one shell; returns G, ids and the reference model"""
    G = G or N.TopologyGraph()
    vs = [N.brep_vertex(g.point(*p), tolerance=rng.choice([1e-6, 1e-3]), tags=rng.choice([None, {"n": i}])) for i, p in enumerate(V)]
    for v in vs:
        G.add_vertex(v)
    edges, uses = {}, {}
    faces, model = [], []
    for pi, poly in enumerate(polys):
        trims, used = [], []
        for a, b in zip(poly, poly[1:] + poly[:1]):
            key = (min(a, b), max(a, b))
            if key not in edges:
                edges[key] = N.line_edge(vs[a], vs[b], sense=rng.random() < .8, tolerance=rng.choice([1e-7, 1e-4]), tags=rng.choice([None, {"e": [a, b]}]))
                G.add_edge(edges[key])
                fwd = True
            else:
                fwd = N.edge_vertices(edges[key])[0] == N.vertex_id(vs[a])
            t = N.brep_trim(edges[key] if rng.random() < .5 else N.edge_id(edges[key]), sense=fwd, uv_curve=rng.choice([None, [[0, 0], [1, .5]]]))
            G.add_trim(t)
            trims.append(t)
            used.append(N.edge_id(edges[key]))
        # sometimes the boundary is split over two loops
        loops = [N.brep_loop(trims)] if rng.random() < .9 or len(trims) < 2 else [N.brep_loop(trims[:1]), N.brep_loop([N.trim_id(t) for t in trims[1:]], loop_type="inner")]
        for l in loops:
            G.add_loop(l)
        f = N.brep_face(surf[pi] if surf else A.plane_surface(g.point(*V[poly[0]]), direction(rng)), loops, sense=rng.random() < .7, tags=rng.choice([None, {"f": pi}]))
        G.add_face(f)
        faces.append(f)
        model.append((N.face_id(f), used))
    return G, vs, edges, faces, model


def topology(ctx, rng):
    V, polys = polyhedron(rng)
    polys = [list(p) for p in polys]
    k = rng.random()
    n0 = len(polys)
    if k < .3:
        for _ in range(rng.randint(1, 2)):
            polys.pop(rng.randrange(len(polys)))
    elif k < .45:
        polys.append(list(rng.choice(polys)))
    elif k < .55 and len(polys) > 2:
        polys.append(list(rng.choice(polys)))
        polys.pop(rng.randrange(len(polys) - 1))
    G, vs, edges, faces, model = build(rng, V, polys)
    # only some of the faces belong to the shell
    part = list(range(len(faces)))
    if rng.random() < .2:
        part = rng.sample(part, rng.randint(1, len(part)))
    claim = rng.choice([None, None, True, False])
    sh = N.brep_shell([faces[i] if rng.random() < .5 else N.face_id(faces[i]) for i in part], closed=claim)
    uses = {}
    for i in part:
        for e in model[i][1]:
            uses.setdefault(e, []).append(model[i][0])
    one, many = {e for e, f in uses.items() if len(f) == 1}, {e for e, f in uses.items() if len(f) > 2}
    closed = not one and not many
    ctx.ev("topology")
    ctx.ev("closed" if closed else "open")
    data = {"polys": polys, "part": part, "claim": claim}
    ctx.case(data)
    check = rng.random() < .85
    try:
        sid = G.add_shell(sh) if check else G.add_shell(sh, validate_closure=False)
        if check and claim is True:
            ctx.ev("claim")
            ctx.check(closed, "closure:accepted", lambda: f"an open shell was accepted as closed ({len(one)} edges used once, {len(many)} more than twice)", data)
    except N.ShellClosureError as x:
        ctx.ev("claim")
        ctx.check(check and claim is True and not closed, "closure:refused", lambda: f"shell refused: {x}", data)
        ctx.check(set(x.details["boundary_edges"]) == one and set(x.details["non_manifold_edges"]) == many, "closure:details", lambda: f"{x.details}", data)
        sid = N.shell_id(sh)
    want = (closed if claim is None and check else claim)
    ctx.check(N.shell_closed(G.get_shell(sid)) is want or N.shell_closed(G.get_shell(sid)) == want, "closure:flag", lambda: f"flag {N.shell_closed(G.get_shell(sid))}, expected {want}", data)
    ok, d = G.compute_shell_closure(sid)
    vid = {x for e in uses for x in N.edge_vertices(G.get_edge(e))}
    ctx.check(ok == closed and set(d["boundary_edges"]) == one and set(d["non_manifold_edges"]) == many and {e: sorted(f) for e, f in d["edge_usage"].items()} == {e: sorted(f) for e, f in uses.items()}, "closure:compute", lambda: f"closed: {ok}, expected {closed}", data)
    ctx.check((d["vertex_count"], d["edge_count"], d["face_count"]) == (len(vid), len(uses), len(part)) and d["euler_characteristic"] == len(vid) - len(uses) + len(part) and G.shell_vertices(sid) == vid, "closure:counts", lambda: f"{d['vertex_count']}, {d['edge_count']}, {d['face_count']}, {d['euler_characteristic']}", data)
    ctx.check(G.summary() == dict(vertices=len(V), edges=len(edges), trims=sum(len(p) for p in polys), loops=sum(len(N.face_loops(f)) for f in faces), faces=len(faces), shells=1, solids=0), "graph:summary", lambda: f"{G.summary()}", data)
    for f in faces:
        ctx.check(f[2]["shell_id"] == (sid if f in [faces[i] for i in part] else None), "graph:shell", lambda: f"{f[2]['shell_id']}", data)
    adjacency(ctx, G, vs, edges, model, data)
    if rng.random() < .5:
        G2 = N.deserialize_topology_graph(json.loads(json.dumps(N.serialize_topology_graph(G))))
        adjacency(ctx, G2, vs, edges, model, data)
        ok2, d2 = G2.compute_shell_closure(sid)
        ctx.check(ok2 == closed and d2["euler_characteristic"] == d["euler_characteristic"], "closure:roundtrip", "closure changed in the round trip", data)


def adjacency(ctx, G, vs, edges, model, data):
    for i, v in enumerate(vs):
        got = sorted(N.edge_id(e) for e in G.vertex_edges(N.vertex_id(v)))
        want = sorted(N.edge_id(e) for k, e in edges.items() if i in k)
        ctx.check(got == want, "graph:vertex_edges", lambda: f"vertex {i} has {len(got)} edges, expected {len(want)}", data)
    for e in edges.values():
        got = sorted({N.face_id(f) for f in G.edge_faces(N.edge_id(e))})
        want = sorted({f for f, used in model if N.edge_id(e) in used})
        ctx.check(got == want, "graph:edge_faces", lambda: f"{len(got)} faces at an edge, expected {len(want)}", data)
    for f, used in model:
        got = [N.edge_id(e) for e in G.face_edges(f)]
        ctx.check(got == used, "graph:face_edges", lambda: f"{got}, expected {used}", data)
    ctx.check(G.vertex_edges("none") == [] and G.edge_faces("none") == [] and G.face_edges("none") == [] and G.get_edge("none") is None, "graph:missing", "unknown ids found", data)


# ---------------------------------------------------------------- whole graphs

def sample_edges(rng, G):
    """add free edges of every type"""
    z = rng.uniform(-2, 2)
    v, w = N.brep_vertex(g.point(*vec(rng, 3)[:2], z), tags={"free": True}), N.brep_vertex(g.point(*vec(rng, 3)[:2], z))
    G.add_vertex(v)
    G.add_vertex(w)
    out = [N.line_edge(v, w), N.arc_edge(v, w, bulge=rng.uniform(-2, 2), sense=False), N.arc_edge(v, w, center=vec(rng)[:2] + [z], orientation=rng.choice([1, -1])),
           N.circle_edge(v, w, vec(rng), direction(rng), rng.uniform(1, 4), t_start=rng.uniform(0, 2), t_end=rng.choice([None, 5.0])),
           N.bspline_edge(v, w, [vec(rng) for _ in range(4)], [0, 0, 0, 0, 1, 1, 1, 1], 3, weights=rng.choice([None, [1, 2, .5, 1]])),
           N.brep_edge("ellipse", v, w, curve_params={"center": g.point(*vec(rng)), "semi_major": 2.0, "semi_minor": 1.0, "rotation": 30.0}), N.brep_edge("nurbs", v, w, curve_params={"control_points": [g.point(*vec(rng)) for _ in range(3)], "degree": 2}),
           N.brep_edge("arc", v, w)]
    out = rng.sample(out, rng.randint(1, len(out)))
    for e in out:
        e[2]["tolerance"] = rng.choice([1e-6, 1e-3])
        G.add_edge(e)
    return out


def whole(rng, nomove=False):
    G = N.TopologyGraph()
    V, polys = polyhedron(rng)
    kinds = []
    surf = []
    for _ in polys:
        k, s, _r = mk(rng, rng.choice(KINDS), fullsphere=nomove)
        kinds.append(k)
        surf.append(s)
    G, vs, edges, faces, model = build(rng, V, polys, G, surf)
    if rng.random() < .7:
        sample_edges(rng, G)
    sh = N.brep_shell(faces, shell_type=rng.choice(["outer", "void"]), closed=rng.choice([None, True, False]), tags={"s": 1})
    G.add_shell(sh)
    if rng.random() < .7:
        G.add_solid(N.brep_solid([sh], tags={"name": "x"}), validate=False)
    return G, kinds


def content(G):
    """everything the graph holds, in a comparable form"""
    num = lambda x: (round(float(x), 9) + 0.0) if isinstance(x, (int, float)) and not isinstance(x, bool) else {k: num(v) for k, v in sorted(x.items()) if not k.startswith("_")} if isinstance(x, dict) else [num(y) for y in x] if isinstance(x, (list, tuple)) else x
    out = {}
    for name in ("vertices", "edges", "trims", "loops", "faces", "shells", "solids"):
        out[name] = {i: num(x) for i, x in getattr(G, name).items()}
    return out


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k} {'gone' if k in a else 'new'}"
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        return None if abs(a - b) < 1e-6 else f"{path}: {a} became {b}"
    return None if a == b else f"{path}: {a!r} became {b!r}"[:200]


def roundtrip(ctx, rng):
    G, kinds = whole(rng)
    ctx.ev("roundtrip")
    ctx.case([kinds, G.summary(), rng.random()])
    data = {"kinds": kinds, "summary": G.summary()}
    before = content(G)
    ser = N.serialize_topology_graph(G)
    G2 = N.deserialize_topology_graph(json.loads(json.dumps(ser)))
    d = diff(before, content(G2))
    ctx.check(d is None, "roundtrip:lost", lambda: f"round trip: {d}", data)
    ctx.check(diff(before, content(G)) is None, "roundtrip:mutated", "serialising changed the graph", data)
    for i, f in G.faces.items():
        a, b = A.tessellate_surface(f[1], u_divisions=3, v_divisions=3), A.tessellate_surface(G2.faces[i][1], u_divisions=3, v_divisions=3)
        ctx.check(np.abs(np.array(a[1]) - np.array(b[1])).max() < 1e-9, "roundtrip:surface", lambda: f"a {f[1][0]} is elsewhere after the round trip", data)
    if rng.random() < .7:
        ctx.ev("attached")
        s = gen3.solid(rng)
        ctx.check(not N.has_native_brep(s) and N.native_brep_from_solid(s) is None, "attach:none", "a fresh solid has a native BREP", data)
        N.clear_native_brep(s)
        N.attach_native_brep_to_solid(s, G)
        if rng.random() < .5:
            s = copy.deepcopy(s)
        G3 = N.native_brep_from_solid(s)
        d = diff(before, content(G3)) if G3 is not None else "nothing came back"
        ctx.check(N.has_native_brep(s) and d is None, "attach:lost", lambda: f"attached and read back: {d}", data)
        G3.transform(lambda p: g.point(p[0] + 1, p[1], p[2]))
        ctx.check(diff(before, content(N.native_brep_from_solid(s))) is None, "attach:alias", "changing the graph read back changed the solid", data)
        N.clear_native_brep(s)
        ctx.check(not N.has_native_brep(s) and N.native_brep_from_solid(s) is None, "attach:clear", "the BREP survived clearing", data)


# ---------------------------------------------------------------- solids

def shell(rng, G, c, size, kind, closed=None, broken=False):
    """one shell about c, within a ball of radius size; returns shell, triangles"""
    if kind == "sphere":
        S = [A.sphere_surface(g.point(*c), size)]
    elif kind == "torus":
        S = [A.torus_surface(g.point(*c), direction(rng), size * .7, size * .3)]
    elif kind == "box":
        h = size / math.sqrt(3)
        S = []
        for ax in range(3):
            for sg in (-1, 1):
                n, o = [0.0] * 3, list(c)
                n[ax] = sg
                o[ax] += sg * h
                S.append(A.plane_surface(g.point(*o), n, u_range=(-h, h), v_range=(-h, h)))
    else:
        s = gu.prism(size * 1.1, size * .9, size * .8) if kind == "mesh" else gu.sphere(2 * size, depth=1) if kind == "ball" else ubend(size)
        if kind == "mesh":
            s = g3.rotatesolid(s, rng.uniform(0, 360), axis=g.point(*direction(rng)))
        s = g3.translatesolid(s, g.point(*c))
        S = [A.tessellated_surface(x[1], x[2], x[3]) for x in s[1]]
    faces = [N.brep_face(s, []) for s in S]
    if broken:      # a boundary edge used once
        v, w = N.brep_vertex(g.point(*c)), N.brep_vertex(g.point(*[x + 1 for x in c]))
        e = N.line_edge(v, w)
        t = N.brep_trim(e)
        l = N.brep_loop([t])
        for x, add in ((v, G.add_vertex), (w, G.add_vertex), (e, G.add_edge), (t, G.add_trim), (l, G.add_loop)):
            add(x)
        faces[0] = N.brep_face(S[0], [l])
    for f in faces:
        G.add_face(f)
    sh = N.brep_shell(faces, closed=closed)
    T = []
    for s in S:
        m = A.tessellate_surface(s)
        V = np.array(m[1])[:, :3]
        T += [V[list(t)] for t in m[3]]
    return sh, np.array(T)


def ubend(size):
    a = size * .8
    L = [(-a, -a), (a, -a), (a, a), (a * .5, a), (a * .5, -a * .5), (-a * .5, -a * .5), (-a * .5, a), (-a, a)]
    return g3.translatesolid(gu.extrude(g3.poly2surface([g.point(*p) for p in L + L[:1]])[0], a * .6), g.point(0, 0, -a * .3))


def apart(T1, T2):
    """a lower bound of the distance between two triangle sets, roughly, and whether they really cross"""
    Q = np.concatenate([T1.reshape(-1, 3), T1.mean(axis=1), (T1[:, 0] + T1[:, 1]) / 2, (T1[:, 1] + T1[:, 2]) / 2, (T1[:, 0] + T1[:, 2]) / 2])
    return mesh3.dist_to(T2, Q).min()


def solids(ctx, rng):
    G = N.TopologyGraph()
    kinds = ["ball", "ball", "mesh", "ubend"]        # the octree takes minutes for two finely tessellated shells
    c = rng.choice([[0.0, 0.0, 0.0], vec(rng)])
    more = rng.choice([0, 1, 1, 1, 2])
    k0 = rng.choice(["sphere", "box", "torus"] + kinds if not more else ["sphere"] + kinds)
    flag = lambda: rng.choice([None, None, True])
    bad = rng.random() < .12
    outer, T0 = shell(rng, G, c, 6.0, k0, flag(), broken=bad)
    specs, shells, TS = [(k0, c, 6.0)], [outer], [T0]
    for _ in range(more):
        r = rng.random()
        k = rng.choice(kinds)
        if r < .35:
            p, s = [x + rng.uniform(-.4, .4) * (rng.random() < .7) for x in c], rng.uniform(.3, 1.5)
        elif r < .6:
            p, s = [x + rng.uniform(-6, 6) for x in c], rng.uniform(.5, 4)
        elif r < .75:
            p, s = [x + y * rng.uniform(9, 14) for x, y in zip(c, unit(direction(rng)))], rng.uniform(.5, 2)
        elif r < .9:
            p, s = [x + y * rng.uniform(0, 5) for x, y in zip(c, unit(direction(rng)))], rng.uniform(.3, 1)
        else:
            p, s = list(c), rng.uniform(14, 20)
        specs.append((k, p, s))
        sh, T = shell(rng, G, p, s, k, flag())
        shells.append(sh)
        TS.append(T)
    ctx.ev("solid")
    data = {"shells": specs, "broken": bad}
    ctx.case(data)
    # reference
    margin = min([apart(a, b) if len(a) < 4000 else 1 for i, a in enumerate(TS) for b in TS[i + 1:]] + [1.0])
    cross = False
    for i, a in enumerate(TS):
        for b in TS[i + 1:]:
            # crossing for certain: vertices of one on both sides of the other, or an edge of one through the other
            for x, y in ((a, b), (b, a)):
                w = np.abs(mesh3.winding(y, x.reshape(-1, 3)[:: max(1, len(x) * 3 // 400)]))
                if (w > .9).any() and (w < .1).any():
                    cross = True
    inside = all((np.abs(mesh3.winding(TS[0], T.reshape(-1, 3)[:3])) > .9).all() for T in TS[1:])
    closedflags = rng.random() < .08
    if closedflags:
        N.set_shell_closed(rng.choice(shells), False)
    try:
        for s in shells:
            G.add_shell(s)
    except N.ShellClosureError:
        ctx.check(bad and outer[2]["closed"] is True, "solid:closure", "a closed shell was refused", data)
        return
    unchecked = rng.random() < .2
    sol = N.brep_solid(shells if rng.random() < .5 else [N.shell_id(s) for s in shells])
    res = None
    try:
        sid = G.add_solid(sol, validate=not unchecked)
        if unchecked:
            ctx.check(G.get_solid(sid) is sol and all(s[2]["solid_id"] == sid for s in shells), "solid:unchecked", "not registered", data)
            G.validate_solid(sid)
    except N.SolidValidationError as x:
        res = x
        ctx.check(isinstance(x.details, dict), "solid:details", lambda: f"{x.details}", data)
    if bad or closedflags:
        ctx.check(res is not None and ("open" in str(res) or "closed" in str(res)), "solid:open", lambda: f"a solid with an open shell: {res}", data)
    elif cross:
        ctx.ev("crossing")
        ctx.check(res is not None and "intersect" in str(res), "solid:crossing", lambda: f"a solid with crossing shells: {res}", data)
    elif margin > .35:        # clear of each other
        if inside:
            ctx.ev("valid")
            ctx.check(res is None, "solid:refused", lambda: f"a valid solid was refused: {res}", data)
        else:
            ctx.ev("outside")
            ctx.check(res is not None and "contained" in str(res), "solid:accepted", lambda: f"a solid with a void that is not inside it: {res}", data)
    # point containment, bounding box
    i = rng.randrange(len(shells))
    shid, T = N.shell_id(shells[i]), TS[i]
    contain(ctx, rng, G, shid, T, specs[i], data)
    if rng.random() < .5:
        d = [rng.choice([0.0, rng.uniform(-20, 20)]) for _ in range(3)]
        N.transform_topology_graph(G, lambda p: g.point(p[0] + d[0], p[1] + d[1], p[2] + d[2]))
        contain(ctx, rng, G, shid, T + np.array(d), (specs[i][0], [a + b for a, b in zip(specs[i][1], d)], specs[i][2]), dict(data, moved=d))


def contain(ctx, rng, G, shid, T, spec, data):
    lo, hi = T.reshape(-1, 3).min(axis=0), T.reshape(-1, 3).max(axis=0)
    b = G.shell_bbox(shid)
    ctx.check(np.abs(np.array(b[0][:3]) - lo).max() < 1e-6 and np.abs(np.array(b[1][:3]) - hi).max() < 1e-6, "solid:bbox", lambda: f"box {b}, the tessellation spans {lo} to {hi}", data)
    m = G.tessellate_shell(shid)
    ctx.check(len(m[3]) == len(T), "solid:tess", lambda: f"{len(m[3])} triangles, expected {len(T)}", data)
    Q = [spec[1]] + [[rng.uniform(a - .3, z + .3) for a, z in zip(lo, hi)] for _ in range(10)] + [[spec[1][0] + rng.uniform(-1, 1) * spec[2], spec[1][1], spec[1][2]] for _ in range(3)]
    dist = mesh3.dist_to(T, np.array(Q))
    w = np.abs(mesh3.winding(T, np.array(Q)))
    for q, d, x in zip(Q, dist, w):
        if d < 1e-3 or .1 < x < .9:
            continue
        ctx.ev("contains")
        got = G.shell_contains_point(shid, g.point(*q))
        ctx.check(got == (x > .5), "solid:contains", lambda: f"{q} in {spec}: {got}, winding number {x}", data)


# ---------------------------------------------------------------- movement

def tess(G, i):
    f = G.faces[i]
    m = A.tessellate_surface(f[1], u_divisions=6, v_divisions=4)
    V, NR = np.array(m[1], float)[:, :3], np.array(m[2], float)[:, :3]
    F = np.array(m[3])
    if not f[2]["sense"]:
        NR, F = -NR, F[:, ::-1]
    return V, NR, F


def moved(ctx, rng):
    G, kinds = whole(rng, nomove=True)
    s = gen3.solid(rng)
    N.attach_native_brep_to_solid(s, G)
    orig = content(G)
    M, ops = np.eye(4), []
    flat = True
    planes = {"xy": (1, 1, -1), "xz": (1, -1, 1), "yz": (-1, 1, 1)}
    x = s
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["t", "r", "r", "m", "s"])
        m = np.eye(4)
        if k == "t":
            d = vec(rng)
            x = g3.translatesolid(x, g.point(*d))
            m[:3, 3] = d
            ops.append(["translate", d])
        elif k == "r":
            a, c, ax = rng.choice([90, 180, rng.uniform(-180, 180)]), rng.choice([[0, 0, 0], vec(rng)]), rng.choice([[0, 0, 1], [0, 0, 1], [1, 0, 0], direction(rng)])
            if ax != [0, 0, 1]:
                flat = flat and abs(a) == 180 and ax == [1, 0, 0]
            x = g3.rotatesolid(x, a, cent=g.point(*c), axis=g.point(*ax))
            n, t = unit(ax), math.radians(a)
            K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
            m[:3, :3] = np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K
            m[:3, 3] = np.array(c) - m[:3, :3] @ np.array(c)
            ops.append(["rotate", a, c, ax])
        elif k == "m":
            p = rng.choice(sorted(planes))
            x = g3.mirrorsolid(x, p)
            m[:3, :3] = np.diag(planes[p])
            ops.append(["mirror", p])
            ctx.ev("mirrored")
        else:
            f, c = rng.uniform(.3, 3), rng.choice([None, vec(rng)])
            x = g3.scalesolid(x, f, cent=g.point(*c)) if c else g3.scalesolid(x, f)
            m[:3, :3] *= f
            m[:3, 3] = np.array(c or [0, 0, 0]) * (1 - f)
            ops.append(["scale", f, c])
            ctx.ev("scaled")
        M = m @ M
    ctx.ev("moved")
    data = {"ops": ops, "kinds": kinds}
    ctx.case([ops, kinds])
    d = diff(orig, content(N.native_brep_from_solid(s)))
    ctx.check(d is None, "moved:original", lambda: f"the BREP of the original solid changed: {d}", data)
    H = N.native_brep_from_solid(x)
    if H is None:
        ctx.viol("moved:lost", "the transformed solid has no native BREP", data)
        return
    ctx.check(H.summary() == G.summary(), "moved:summary", lambda: f"{H.summary()}, was {G.summary()}", data)
    ap = lambda P: np.asarray(P) @ M[:3, :3].T + M[:3, 3]
    scale = abs(np.linalg.det(M[:3, :3])) ** (1 / 3)
    tol = 1e-6 * (1 + scale) * 10
    for i, v in G.vertices.items():
        ctx.check(np.abs(np.array(H.vertices[i][1][:3]) - ap(v[1][:3])).max() < tol, "moved:vertex", lambda: f"vertex at {H.vertices[i][1]}, expected {ap(v[1][:3])}", data)
    L = np.linalg.inv(M[:3, :3]).T
    for i, f in G.faces.items():
        ctx.ev("face")
        V, NR, F = tess(G, i)
        W, NW, FW = tess(H, i)
        kind = f[1][0]
        if kind == "sphere_surface":        # without an axis: only the sphere as a whole
            h = H.faces[i]
            ctx.check(h[1][0] == kind and np.abs(np.array(h[1][1][:3]) - ap(f[1][1][:3])).max() < tol and abs(h[1][2]["radius"] - f[1][2]["radius"] * scale) < tol and h[2]["sense"] == f[2]["sense"], "moved:sphere", lambda: f"sphere {h[1]}, was {f[1]}", data)
            continue
        E = ap(V)
        dd, jj = cKDTree(W).query(E)
        d2, _ = cKDTree(E).query(W)
        ctx.check(dd.max() < tol and d2.max() < tol, "moved:face", lambda: f"a {kind} is {max(dd.max(), d2.max())} from where the solid went", data)
        if max(dd.max(), d2.max()) >= tol:
            continue
        EN = NR @ L.T
        EN /= np.maximum(np.linalg.norm(EN, axis=1), 1e-12)[:, None]
        if kind != "tessellated_surface":
            cos = (EN * NW[jj]).sum(axis=1)
            ctx.check(cos.min() > (1 - 1e-3), "moved:normal", lambda: f"the normals of a {kind} make up to {math.degrees(math.acos(max(-1, min(1, cos.min()))))} degrees with the moved ones", data)
        # triangles wound the same way: vector area
        va = lambda P, T: np.cross(P[T[:, 1]] - P[T[:, 0]], P[T[:, 2]] - P[T[:, 0]]).sum(axis=0) / 2
        c0 = E.mean(axis=0)
        vol = lambda P, T: np.einsum("ij,ij->i", P[T[:, 0]] - c0, np.cross(P[T[:, 1]] - c0, P[T[:, 2]] - c0)).sum() / 6
        det = np.sign(np.linalg.det(M[:3, :3]))
        a, b = va(E, F) * det, va(W, FW)
        n = np.linalg.norm(a)
        tot = np.linalg.norm(np.cross(E[F[:, 1]] - E[F[:, 0]], E[F[:, 2]] - E[F[:, 0]]), axis=1).sum() / 2
        if n > .05 * tot:
            ctx.check(a @ b > .5 * n * np.linalg.norm(b), "moved:winding", lambda: f"a {kind} is wound the other way: {a}, {b}", data)
        va0, vb0 = vol(E, F) * det, vol(W, FW)
        if abs(va0) > .02 * tot ** 1.5:
            ctx.check(va0 * vb0 > 0, "moved:winding", lambda: f"a {kind} is inside out: volume {va0}, {vb0}", data)
    for i, e in G.edges.items():
        k, p, q = e[1], e[2]["curve_params"], H.edges[i][2]["curve_params"]
        ctx.check(H.edges[i][1] == k and set(p) == set(q), "moved:edge", lambda: f"{k} edge lost its parameters: {sorted(q)}", data)
        if "center" in p:
            ctx.check(np.abs(np.array(q["center"][:3]) - ap(p["center"][:3])).max() < tol, "moved:center", lambda: f"{k} edge: centre {q['center']}", data)
        if "control_points" in p:
            ctx.check(np.abs(np.array(q["control_points"])[:, :3] - ap(np.array(p["control_points"])[:, :3])).max() < tol, "moved:points", lambda: f"{k} edge: control points", data)
        for key in ("radius", "semi_major", "semi_minor"):
            if key in p:
                ctx.check(abs(q[key] - p[key] * scale) < 1e-6 * (1 + q[key]), "moved:radius", lambda: f"{k} edge: {key} {q[key]}, expected {p[key] * scale}", data)
        if k == "circle":
            want = M[:3, :3] @ np.array(p["axis"][:3]) * np.sign(np.linalg.det(M[:3, :3]))
            ctx.check(np.abs(np.array(q["axis"][:3]) - unit(want)).max() < 1e-6, "moved:axis", lambda: f"circle axis {q['axis']}, expected {unit(want)}", data)
        if k == "line" or k == "arc" and p and flat and np.linalg.norm(np.array(G.vertices[e[2]["start_vertex_id"]][1][:2]) - np.array(G.vertices[e[2]["end_vertex_id"]][1][:2])) > .01:
            if k == "arc" and "center" in p:        # a centre that is not one of a circle through both
                continue
            a, b = [np.array(P) for P in walk(G.evaluate_edge(i), 8)], [np.array(P) for P in walk(H.evaluate_edge(i), 8)]
            ctx.check(np.abs(ap(a) - b).max() < 1e-5 * (1 + scale) * 10, "moved:curve", lambda: f"{k} edge ran {a[0]}, {a[4]}, {a[8]}; now {b[0]}, {b[4]}, {b[8]}, expected {ap(a[0])}, {ap(a[4])}, {ap(a[8])}", data)
        if k == "arc" and "center" in p and flat:
            ctx.check((q["orientation"] == p["orientation"]) == (np.linalg.det(M[:2, :2]) > 0), "moved:direction", lambda: f"orientation {p['orientation']} became {q['orientation']}", data)
    # the graph's own method moves vertices and edges
    if rng.random() < .5:
        K = N.deserialize_topology_graph(N.serialize_topology_graph(G))
        K.transform(lambda P: g.point(*ap(P[:3])))
        for i in G.vertices:
            ctx.check(np.abs(np.array(K.vertices[i][1][:3]) - ap(G.vertices[i][1][:3])).max() < tol, "moved:transform", "TopologyGraph.transform left a vertex behind", data)
        for i in G.edges:
            p, q = G.edges[i][2]["curve_params"], K.edges[i][2]["curve_params"]
            if "center" in p:
                ctx.check(np.abs(np.array(q["center"][:3]) - ap(p["center"][:3])).max() < tol, "moved:transform", lambda: f"TopologyGraph.transform left the centre of a {G.edges[i][1]} edge behind", data)
            if "control_points" in p:
                ctx.check(np.abs(np.array(q["control_points"])[:, :3] - ap(np.array(p["control_points"])[:, :3])).max() < tol, "moved:transform", lambda: f"TopologyGraph.transform left the points of a {G.edges[i][1]} edge behind", data)


def vertex(ctx, rng):
    a = vec(rng)
    ta, tb = rng.choice([1e-6, 1e-3, .1]), rng.choice([1e-6, 1e-3, .1])
    d = rng.choice([ta, tb, 1]) * rng.choice([.5, .9, 1.1, 2])
    b = (np.array(a) + unit(direction(rng)) * d).tolist()
    v, w = N.brep_vertex(g.point(*a), tolerance=ta), N.brep_vertex(b, tolerance=tb)
    t = rng.choice([None, None, .043, 1.3e-4])
    want = d <= (max(ta, tb) if t is None else t)
    ctx.ev("vertex")
    data = {"d": d, "ta": ta, "tb": tb, "t": t}
    ctx.case([a, data])
    ctx.check(N.vertices_coincident(v, w, t) == want == N.vertices_coincident(w, v, t), "vertex:coincident", lambda: f"{d} apart: {N.vertices_coincident(v, w, t)}", data)
    ctx.check(N.vertex_id(v) != N.vertex_id(w), "vertex:id", "two vertices share an id", data)
    P = g.point(*a)
    N.set_vertex_location(v, P)
    P[0] += 1
    ctx.check(N.vertex_location(v)[:3] == a and N.vertex_id(v), "vertex:alias", lambda: f"{N.vertex_location(v)}", data)


GROUPS = {"surface": (surface, 600, 20000), "refused": (refused, 80, 400), "edge": (edge, 600, 12000), "topology": (topology, 350, 8000), "roundtrip": (roundtrip, 150, 4000), "solids": (solids, 150, 5000), "moved": (moved, 220, 7000), "vertex": (vertex, 150, 2000)}

if __name__ == "__main__":
    vf.main(globals())
