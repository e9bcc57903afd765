import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, math
import vf

PROP = "C30"
LEVEL = "exploration"
META = dict(
    title="Beam segmentation: cuts, connectors and rings fit together",
    statement="On a path3d of lines and arcs (any plane, also over 180 degrees) evaluate_path3d_at_t() returns the point of the curve with its unit tangent, each segment having an equal share of [0,1]; compute_cut_plane() is the plane through that point across the tangent; extract_sub_path(a,b) traces exactly the part between a and b; path_length() is the arc length and length_to_parameter()/parameter_to_length() are inverse. compute_optimal_cuts() leaves no segment longer than the maximum. segment_swept_element() cuts at those planes in order of the parameter; the segments' parameter ranges partition [0,1], ids are unique, mates are the neighbours, symmetrically, and equal to assembly_graph; a segment is male exactly when a tab was joined to it, female exactly when it only receives one, and holds the solid it was left with; a connector that was not joined is listed once with the cut's parameter, length and clearance; failed cuts and unions give a warning each; the instructions name the same things. A connector's section is the outer one less twice wall and clearance (refused when nothing is left), it is centred on its cut with the asked length (3 times the larger side by default) clipped to the spine; a terminal tab continues the spine outward from its end; a female hole is wider than the tab by the clearance. Ring spines and attachment points lie on the tilted, moved circle; ring cuts are increasing, as many as needed and at least the asked distance away from every hole when there is room. Inputs are not modified.",
    over=["inputs"], q="for all spines, cut lists, profiles, rings and holes",
    why="Segments are printed for days and then have to fit: a cut in the wrong place, a tab that does not go into its mate or instructions naming the wrong joint waste the whole print.",
    files=["src/yapcad/manufacturing/path_utils.py", "src/yapcad/manufacturing/segmentation.py", "src/yapcad/manufacturing/connectors.py", "src/yapcad/manufacturing/rings.py", "src/yapcad/manufacturing/data.py"],
    mech=[("evaluate_path3d_at_t", "src/yapcad/manufacturing/path_utils.py"), ("segment_swept_element", "src/yapcad/manufacturing/segmentation.py"), ("create_interior_connector", "src/yapcad/manufacturing/connectors.py"), ("compute_ring_cuts_avoiding_holes", "src/yapcad/manufacturing/rings.py")],
    technique="random paths against closed-form curves; segmentation run with recording stand-ins for the OCC operations and the records judged against a reference bookkeeping; ring layouts against direct distance checks",
    note="Exploration. Splitting, sweeping and boolean operations need OCC, which is not installed: they are replaced by stand-ins that record what they were asked (a solid is the set of curve parameters it covers plus the tabs joined to it), so the planning and bookkeeping is judged, not OCC's geometry. Ring cuts are judged for hole distance only when every ideal cut has valid room within a quarter of a segment.",
)
RULE = "random spines, cuts, profiles, rings; distinct by the recipe"
REQUIRE = {"eval": 4000, "eval:bigarc": 300, "eval:joint": 300, "sub": 800, "sub:point": 8000, "length": 500, "inverse": 3000, "refused": 500, "optimal": 200, "optimal:cut": 300, "segmented": 500, "segment": 1500, "seg:male": 250, "seg:female": 200, "seg:failed": 40,
           "seg:unionfail": 40, "seg:listed": 200, "instructions": 400, "connector": 400, "connector:clipped": 60, "terminal": 300, "hole": 200, "region": 200, "region:round": 60, "spine": 200, "attach": 400, "ringcut": 400, "ringcut:moved": 80, "ringcut:judged": 200, "closedring": 100}
WALL_QUICK = 240


def init():
    global np, M, PU, CN, SG, RG, DT, G3U, G3
    import numpy as np
    from yapcad.manufacturing import path_utils as PU, connectors as CN, segmentation as SG, rings as RG, data as DT
    import yapcad.geom3d_util as G3U
    import yapcad.geom3d as G3


# ------------------------------------------------------------------ reference curves
def unit(v):
    return v / np.linalg.norm(v)


def rdir(rng):
    while True:
        v = np.array([rng.gauss(0, 1) for _ in range(3)])
        if np.linalg.norm(v) > 0.1:
            return unit(v)


def rpath(rng, smooth=False, big=True, nmax=6):
    """a connected path: (path3d dict, reference list of (kind, params, length))"""
    p = np.array([rng.uniform(-50, 50) for _ in range(3)])
    segs, ref = [], []
    n = rng.randint(1, nmax)
    t = rdir(rng)
    for _ in range(n):
        d = t if smooth else (rng.choice([np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, 1.0])]) * rng.choice([1, -1]) if rng.random() < 0.3 else rdir(rng))
        if rng.random() < 0.5:
            L = rng.uniform(0.5, 100)
            q = p + d * L
            segs.append({"type": "line", "start": list(p), "end": list(q)})
            if rng.random() < 0.2:
                del segs[-1]["type"]
            ref.append(("line", p, q, L))
            p, t = q, d
        else:
            # arc leaving p in direction d
            if rng.random() < 0.4 and abs(d[2]) < 1 - 1e-6 and not smooth:
                d = np.array([d[0], d[1], 0.0])
                d = unit(d)
                nrm = np.array([0, 0, 1.0]) * (rng.choice([1, -1]))
            else:
                nrm = unit(np.cross(d, rdir(rng)))
            R = rng.uniform(1, 60)
            u = np.cross(d, nrm)           # centre -> start, so that n x u = d
            c = p - R * u
            a = math.radians(rng.uniform(5, 345 if big else 175))
            if 178.5 < math.degrees(a) < 181.5:
                a = math.radians(170)
            q = c + R * (math.cos(a) * u + math.sin(a) * d)
            s = {"type": "arc", "center": list(c), "start": list(p), "end": list(q), "normal": list(nrm * rng.choice([1, 1, 2.5]))}
            if nrm[2] == 1.0 and rng.random() < 0.5:
                del s["normal"]
            segs.append(s)
            ref.append(("arc", (c, R, u, d, a), None, R * a))
            p, t = q, math.cos(a) * d - math.sin(a) * u
    return {"segments": segs}, ref


def rpoint(s, x):
    if s[0] == "line":
        return s[1] + (s[2] - s[1]) * x, unit(s[2] - s[1])
    c, R, u, d, a = s[1]
    return c + R * (math.cos(a * x) * u + math.sin(a * x) * d), math.cos(a * x) * d - math.sin(a * x) * u


def reval(ref, t):
    n = len(ref)
    t = min(1.0, max(0.0, t))
    k = min(n - 1, int(t * n))
    return rpoint(ref[k], t * n - k)


def rlen(ref, t):
    n = len(ref)
    k = min(n - 1, int(t * n))
    return sum(s[3] for s in ref[:k]) + ref[k][3] * (t * n - k)


def vec(p):
    return np.array([float(x) for x in p[:3]])


def rt(rng, n):
    k = rng.random()
    if k < 0.15:
        return rng.randint(0, n) / n
    if k < 0.2:
        return rng.choice([0.0, 1.0])
    return rng.random()


# ------------------------------------------------------------------ path groups
def g_eval(ctx, rng):
    path, ref = rpath(rng)
    n = len(ref)
    ctx.case(repr(path))
    keep = copy.deepcopy(path)
    size = max(1.0, sum(s[3] for s in ref))
    for _ in range(14):
        t = rt(rng, n)
        if rng.random() < 0.05:
            t = rng.choice([-0.5, 1.5, -1e-9, 1 + 1e-9])
        pt, tan = PU.evaluate_path3d_at_t(path, t)
        ctx.ev("eval")
        rp, rtan = reval(ref, t)
        k = min(n - 1, int(min(1, max(0, t)) * n))
        if ref[k][0] == "arc" and ref[k][1][4] > math.pi:
            ctx.ev("eval:bigarc")
        tol = 1e-6 * size + 1e-6
        d = {"path": path, "t": t, "point": list(pt), "tangent": list(tan), "wantp": list(rp), "wantt": list(rtan)}
        x = min(1, max(0, t)) * n
        if 1e-9 < abs(x - round(x)) or t >= 1 or t <= 0:
            ctx.check(np.linalg.norm(vec(pt) - rp) <= tol, "point", "evaluate_path3d_at_t is off the curve", d)
            ctx.check(np.linalg.norm(vec(tan) - rtan) <= 1e-5, "tangent", "the tangent is not the curve's", d)
        else:
            ctx.ev("eval:joint")       # either side of the joint will do
            i = int(round(x))
            cand = [rpoint(ref[i - 1], 1.0)] + ([rpoint(ref[i], 0.0)] if i < n else [])
            ctx.check(any(np.linalg.norm(vec(pt) - a) <= tol and np.linalg.norm(vec(tan) - b) <= 1e-5 for a, b in cand), "joint", "evaluation at a joint is neither side's", d)
        ctx.check(abs(np.linalg.norm(vec(tan)) - 1) < 1e-9, "unit", "the tangent is not a unit vector", d)
        cp, cn = PU.compute_cut_plane(path, t)
        ctx.check(np.allclose(vec(cp), vec(pt), atol=tol) and np.allclose(vec(cn), vec(tan), atol=1e-6), "plane", "the cut plane is not at the path point across the tangent", d)
    L = PU.path_length(path)
    ctx.ev("length")
    want = sum(s[3] for s in ref)
    ctx.check(abs(L - want) <= 1e-5 * want, "length", "path_length is not the arc length", {"path": path, "got": L, "want": want})
    ctx.check(path == keep, "modified", "evaluating a path modified it", {"path": keep})


def g_sub(ctx, rng):
    path, ref = rpath(rng)
    n = len(ref)
    ctx.case(repr(path))
    keep = copy.deepcopy(path)
    size = max(1.0, sum(s[3] for s in ref))
    for _ in range(4):
        a, b = sorted([rt(rng, n), rt(rng, n)])
        if b - a < 1e-3:
            try:
                PU.extract_sub_path(path, b, a)
                ctx.viol("refuse", "extract_sub_path accepted t_start >= t_end", {"a": b, "b": a})
            except ValueError:
                ctx.ev("refused")
            continue
        sp = PU.extract_sub_path(path, a, b)
        ctx.ev("sub")
        d = {"path": path, "a": a, "b": b, "sub": sp}
        segs = sp["segments"]
        ctx.check(bool(segs), "empty", "the extracted part is empty", d)
        ctx.check(np.linalg.norm(vec(segs[0]["start"]) - reval(ref, a + 1e-12)[0]) < 1e-5 * size and np.linalg.norm(vec(segs[-1]["end"]) - reval(ref, b)[0]) < 1e-5 * size, "ends", "the extracted part does not begin and end where asked", d)
        for s, t in zip(segs, segs[1:]):
            ctx.check(np.linalg.norm(vec(s["end"]) - vec(t["start"])) < 1e-5 * size, "gap", "the extracted part has a gap", d)
        wl = rlen(ref, b) - rlen(ref, a)
        # tiny arcs (a sweep below a tenth of a degree) are not measurable by acos
        gl = PU.path_length(sp)
        ctx.check(abs(gl - wl) <= 1e-4 * size + 1e-4 * wl, "sublen", "the extracted part has another length", dict(d, got=gl, want=wl))
        # points along it, by length, are the original's points
        for x in (0.13, 0.37, 0.5, 0.81):
            k = int(x * len(segs))
            try:
                q, tq = PU.evaluate_path3d_at_t(sp, x)
            except Exception as e:
                ctx.viol("subeval", "the extracted part cannot be evaluated: %r" % e, d)
                break
            # its reference: k-th piece at local x
            pieces = []
            i0, i1 = int(a * n), min(n - 1, int(b * n))
            for i in range(i0, i1 + 1):
                lo, hi = max(0.0, a * n - i), min(1.0, b * n - i)
                if hi > lo:
                    pieces.append((i, lo, hi))
            if len(pieces) != len(segs):
                pieces = [p for p in pieces if p[2] - p[1] > 1e-9]
            if len(pieces) != len(segs):
                ctx.ev("sub:sliver")
                break
            i, lo, hi = pieces[k]
            if hi - lo < 1e-4:
                continue
            w, wt = rpoint(ref[i], lo + (hi - lo) * (x * len(segs) - k))
            ctx.ev("sub:point")
            ctx.check(np.linalg.norm(vec(q) - w) < 1e-4 * size and np.linalg.norm(vec(tq) - wt) < 1e-3, "subpoint", "the extracted part leaves the original curve", dict(d, x=x, got=list(q), want=list(w)))
    # length <-> parameter
    for _ in range(8):
        t = rt(rng, n)
        l = PU.parameter_to_length(path, t)
        wl = rlen(ref, t)
        d = {"path": path, "t": t, "length": l, "want": wl}
        ctx.ev("inverse")
        ctx.check(abs(l - wl) <= 1e-4 * size, "t2l", "parameter_to_length is not the length up to t", d)
        t2 = PU.length_to_parameter(path, wl)
        ctx.check(0 <= t2 <= 1 and abs(t2 - t) <= 1e-4, "l2t", "length_to_parameter is not the inverse of parameter_to_length", dict(d, back=t2))
    ctx.check(PU.length_to_parameter(path, size * 2) == 1.0 and PU.length_to_parameter(path, -1.0) == 0.0, "l2trange", "lengths outside the path are not clamped", {"path": path})
    for f in (lambda: PU.evaluate_path3d_at_t({"segments": []}, 0.5), lambda: PU.evaluate_path3d_at_t({}, 0.5), lambda: PU.extract_sub_path(path, 0.7, 0.2), lambda: PU.extract_sub_path(path, 0.4, 0.4), lambda: PU.evaluate_path3d_at_t({"segments": [{"type": "bogus"}]}, 0.2)):
        try:
            f()
            ctx.viol("refuse", "a bad request was accepted", {})
        except ValueError:
            ctx.ev("refused")
    ctx.check(path == keep, "modified", "extracting modified the path", {"path": keep})


# ------------------------------------------------------------------ connectors
class Patch:
    """recording stand-ins for the OCC operations"""
    NAMES = {"sweep_adaptive": "sweep", "sweep_profile_along_path": "sweep", "solid_boolean": "boolean"}

    def __init__(self, **fns):
        self.fns = fns

    def __enter__(self):
        self.saved = []
        for mod in (G3U, G3, CN, SG, RG):
            for name, f in self.fns.items():
                if hasattr(mod, name):
                    self.saved.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, f)
        return self

    def __exit__(self, *a):
        for m, n, f in reversed(self.saved):
            setattr(m, n, f)


def sweeper(log):
    def sweep(profile, spine, *a, **k):
        log.append((copy.deepcopy(profile), copy.deepcopy(spine), a, k))
        return ("swept", len(log) - 1)
    return sweep


def outline_box(outline):
    from yapcad.geom import geomlistbbox
    b = geomlistbbox(outline)
    return b[0][0], b[0][1], b[1][0], b[1][1]


def g_connector(ctx, rng):
    W, H = rng.uniform(5, 60), rng.uniform(5, 60)
    wall, fit = rng.uniform(0.3, 12), rng.choice([0.18, 0.3, 0.45, rng.uniform(0, 1)])
    ctx.case((W, H, wall, fit))
    cw, ch = W - 2 * wall - 2 * fit, H - 2 * wall - 2 * fit
    d = {"W": W, "H": H, "wall": wall, "fit": fit}
    okdim = min(cw, ch) > 1e-9
    if abs(min(cw, ch)) < 1e-6:
        return
    inner = (W - 2 * wall, H - 2 * wall)
    try:
        g = CN.compute_connector_profile_dimensions(W, H, wall, fit)
        ctx.check(okdim and abs(g[0] - cw) < 1e-9 and abs(g[1] - ch) < 1e-9, "dims", "the connector section is not outer - 2 wall - 2 clearance", dict(d, got=g, want=(cw, ch)))
    except ValueError:
        ctx.ev("refused")
        ctx.check(not okdim, "dims", "a possible connector section was refused", d)
    try:
        g = CN.compute_inner_profile_dimensions(W, H, wall)
        ctx.check(min(inner) > 0 and np.allclose(g, inner, atol=1e-9), "inner", "inner dimensions are not outer - 2 wall", dict(d, got=g))
    except ValueError:
        ctx.check(min(inner) <= 0, "inner", "possible inner dimensions were refused", d)
    path, ref = rpath(rng, smooth=True, nmax=4)
    keep = copy.deepcopy(path)
    total = sum(s[3] for s in ref)
    size = max(1.0, total)
    n = len(ref)
    t = rng.uniform(0.02, 0.98)
    length = rng.choice([None, rng.uniform(1, 40)])
    log = []
    d.update(path=path, t=t, length=length)
    with Patch(sweep_adaptive=sweeper(log), sweep_profile_along_path=sweeper(log)):
        kw = {} if length is None else {"connector_length": length}
        try:
            CN.create_interior_connector(W, H, path, t, wall_thickness=wall, fit_clearance=fit, **kw)
            ctx.check(okdim, "impossible", "a connector that leaves no material was made", d)
        except ValueError:
            ctx.check(not okdim, "possible", "a possible connector was refused", d)
            ctx.ev("refused")
            log = None
        if log:
            ctx.ev("connector")
            prof, sp, a, k = log[0]
            b = outline_box(prof)
            ctx.check(np.allclose(b, (-cw / 2, -ch / 2, cw / 2, ch / 2), atol=1e-6), "section", "the swept section is not the connector's", dict(d, box=b))
            want = 3.0 * max(W, H) if length is None else length
            L0 = rlen(ref, t)
            lo, hi = max(0.0, L0 - want / 2), min(total, L0 + want / 2)
            if lo == 0.0 or hi == total:
                ctx.ev("connector:clipped")
            # ends by length on the reference
            def at(l):
                acc = 0
                for s in ref:
                    if l <= acc + s[3] + 1e-12:
                        return rpoint(s, max(0, (l - acc)) / s[3])[0]
                    acc += s[3]
                return rpoint(ref[-1], 1.0)[0]
            ctx.check(np.linalg.norm(vec(sp["segments"][0]["start"]) - at(lo)) < 1e-3 * size and np.linalg.norm(vec(sp["segments"][-1]["end"]) - at(hi)) < 1e-3 * size, "centred", "the connector is not centred on its cut with the asked length", dict(d, spine=sp, want=[list(at(lo)), list(at(hi))]))
            ctx.check(abs(PU.path_length(sp) - (hi - lo)) < 1e-3 * size, "clen", "the connector does not have the asked length", dict(d, got=PU.path_length(sp), want=hi - lo))
    ctx.check(abs(CN.compute_connector_length(W, H, path, t) - 3 * max(W, H)) < 1e-9, "deflen", "the default connector length is not 3 times the larger side", d)
    lf = rng.uniform(1, 5)
    ctx.check(abs(CN.compute_connector_length(W, H, path, t, length_factor=lf) - lf * max(W, H)) < 1e-9, "deflen", "the length factor is ignored", d)
    spec = CN.compute_connector_spec("el", t, W, H, wall, path, fit_clearance=fit)
    ctx.check(spec.parent_element_id == "el" and spec.center_parameter == t and abs(spec.length - 3 * max(W, H)) < 1e-9 and spec.fit_clearance == fit and "el" in spec.id, "spec", "the connector specification is not what was asked", dict(d, spec=repr(spec)))
    spec = CN.compute_connector_spec("el", t, W, H, wall, path, connector_id="mine")
    ctx.check(spec.id == "mine" and spec.fit_clearance == 0.18, "spec", "the connector id or default clearance is not kept", d)
    # terminal tabs
    if okdim:
        for end in ("start", "end"):
            log = []
            with Patch(sweep_adaptive=sweeper(log), sweep_profile_along_path=sweeper(log)):
                CN.create_terminal_connector(W, H, path, end, wall_thickness=wall, fit_clearance=fit, **kw)
            ctx.ev("terminal")
            prof, sp, a, k = log[0]
            b = outline_box(prof)
            want = 1.5 * max(W, H) if length is None else length
            p, tn = reval(ref, 0.0 if end == "start" else 1.0)
            q = p + tn * want * (-1 if end == "start" else 1)
            s, e = vec(sp["segments"][0]["start"]), vec(sp["segments"][-1]["end"])
            ctx.check(np.allclose(b, (-cw / 2, -ch / 2, cw / 2, ch / 2), atol=1e-6) and len(sp["segments"]) == 1 and np.linalg.norm(s - p) < 1e-5 * size and np.linalg.norm(e - q) < 1e-4 * (size + want), "terminal", "the terminal tab does not continue the spine outward from its end", dict(d, end=end, spine=sp, want=[list(p), list(q)]))
        try:
            CN.create_terminal_connector(W, H, path, "middle", wall_thickness=wall)
            ctx.viol("refuse", "an unknown end was accepted", d)
        except ValueError:
            ctx.ev("refused")
        # tabs joined to a segment
        log, joins = [], []
        prov = DT.SweptElementProvenance(id="e", operation="sweep", outer_profile=CN.create_connector_region2d(W, H), spine=path, wall_thickness=wall)
        def boolean(a, b, op, *x, **k):
            joins.append((a, b, op))
            return ("joined", a, b)
        st, en = rng.random() < 0.6, rng.random() < 0.6
        with Patch(sweep_adaptive=sweeper(log), sweep_profile_along_path=sweeper(log), solid_boolean=boolean):
            r = CN.add_terminal_connectors_to_segment("S", prov, add_start=st, add_end=en, fit_clearance=fit, **kw)
        ends = [vec(l[1]["segments"][0]["start"]) for l in log]
        want = ([reval(ref, 0.0)[0]] if st else []) + ([reval(ref, 1.0)[0]] if en else [])
        ctx.check(len(joins) == st + en and all(j[2] == "union" for j in joins) and all(any(np.linalg.norm(e - w) < 1e-5 * size for e in ends) for w in want) and len(ends) == len(want), "tabs", "the terminal tabs joined to the segment are not the asked ones", dict(d, start=st, end=en, joins=repr(joins)))
        if not joins:
            ctx.check(r == "S", "tabs", "a segment without tabs was changed", d)
        # female hole
        pos, dr = [rng.uniform(-50, 50) for _ in range(3)], rdir(rng) * rng.choice([1.0, rng.uniform(0.1, 20)])
        depth = rng.uniform(1, 60)
        log = []
        with Patch(sweep_adaptive=sweeper(log), sweep_profile_along_path=sweeper(log)):
            RG.create_female_hole_solid(tuple(pos), tuple(dr), W, H, wall, depth, fit)
        ctx.ev("hole")
        prof, sp, a, k = log[0]
        b = outline_box(prof)
        ctx.check(np.allclose(b, (-(cw + fit) / 2, -(ch + fit) / 2, (cw + fit) / 2, (ch + fit) / 2), atol=1e-6), "holesize", "the female hole is not the tab plus the clearance", dict(d, box=b))
        ctx.check(np.linalg.norm(vec(sp["segments"][0]["start"]) - np.array(pos)) < 1e-9 and np.linalg.norm(vec(sp["segments"][-1]["end"]) - np.array(pos) - unit(dr) * depth) < 1e-6, "holedir", "the female hole does not go from its position along its direction to its depth", dict(d, pos=pos, dir=list(dr), depth=depth, spine=sp))
        # all holes of a ring
        pts = [([rng.uniform(-9, 9) for _ in range(3)], tuple(rdir(rng))) for _ in range(rng.randint(0, 4))]
        log, joins = [], []
        with Patch(sweep_adaptive=sweeper(log), sweep_profile_along_path=sweeper(log), solid_boolean=boolean):
            RG.add_female_holes_to_ring("R", pts, W, H, wall, None if length is None else length, fit)
        dep = 1.5 * max(W, H) if length is None else length
        chain = "R"
        okc = len(joins) == len(pts)
        for j in joins:
            okc = okc and j[2] == "difference" and j[0] == chain
            chain = ("joined", j[0], j[1])
        okc = okc and all(any(np.linalg.norm(vec(l[1]["segments"][0]["start"]) - vec(p)) < 1e-9 and np.linalg.norm(vec(l[1]["segments"][0]["end"]) - vec(p) - dep * np.array(q)) < 1e-6 for l in log) for p, q in pts)
        ctx.check(okc, "ringholes", "the holes cut into the ring are not the asked ones", dict(d, points=repr(pts), joins=repr(joins)[:300]))
    ctx.check(path == keep, "modified", "making connectors modified the spine", d)
    # section regions
    rr = rng.choice([0.0, rng.uniform(0.05, 0.45) * min(W, H)])
    reg = CN.create_connector_region2d(W, H, corner_radius=rr)
    ctx.ev("region")
    b = outline_box(reg[0])
    ctx.check(len(reg) == 1 and np.allclose(b, (-W / 2, -H / 2, W / 2, H / 2), atol=1e-5), "region", "the connector outline does not have the asked size", {"W": W, "H": H, "r": rr, "box": b})
    from yapcad.geom import sample, length as glen
    L = sum(glen(e) for e in reg[0])
    wl = 2 * (W + H) - 8 * rr + 2 * math.pi * rr
    if rr:
        ctx.ev("region:round")
    ctx.check(abs(L - wl) < 1e-4 * wl, "corner", "the outline's corners do not have the asked radius", {"W": W, "H": H, "r": rr, "len": L, "want": wl})
    for e, f in zip(reg[0], reg[0][1:] + reg[0][:1]):
        ctx.check(np.linalg.norm(vec(sample(e, 1.0)) - vec(sample(f, 0.0))) < 1e-5, "outline", "the outline is not a closed loop in order", {"W": W, "H": H, "r": rr, "outline": repr(reg)})


# ------------------------------------------------------------------ segmentation
def g_segment(ctx, rng):
    path, ref = rpath(rng, smooth=True, nmax=5)
    n = len(ref)
    total = sum(s[3] for s in ref)
    W, H, wall = rng.uniform(8, 40), rng.uniform(8, 40), rng.choice([None, rng.uniform(0.5, 2.5), rng.uniform(0.5, 2.5), rng.uniform(0.5, 2.5)])
    profile = CN.create_connector_region2d(W, H)
    el = rng.choice(["beam", "arm_2", "x"])
    k = rng.randint(1, 5)
    ts = []
    while len(ts) < k:
        t = rng.uniform(0.01, 0.99) if not ts or rng.random() < 0.8 else min(0.99, ts[-1] + rng.uniform(0.0005, 0.01))
        if all(abs(t - x) > 2e-4 for x in ts):
            ts.append(t)
    rng.shuffle(ts)
    cuts = [DT.CutPoint(el, t, **({"connector_length": rng.uniform(2, 30)} if rng.random() < 0.4 else {}), **({"fit_clearance": rng.choice([0.1, 0.18, 0.25, 0.3, 0.5])} if rng.random() < 0.7 else {}), **({"union_connector_with": rng.choice(["a", "b", "none"])} if rng.random() < 0.8 else {})) for t in ts]
    build, union = rng.random() < 0.85, rng.random() < 0.8
    badcuts = {t for t in ts if rng.random() < 0.05}
    badunions = {t for t in ts if rng.random() < 0.08}
    ctx.case((repr(path), repr(cuts), build, union, W, H, wall))
    prov = DT.SweptElementProvenance(id=el, operation="sweep", outer_profile=profile, spine=path, wall_thickness=wall, metadata={"solid": ("piece", 0.0, 1.0, ())})
    keep = copy.deepcopy((prov, cuts))
    d = {"path": path, "cuts": repr(cuts), "build": build, "union": union, "wall": wall, "badcuts": sorted(badcuts), "badunions": sorted(badunions)}
    order = sorted(ts)
    probs = []

    def which(point, normal):
        for t in order:
            p, q = reval(ref, t)
            if np.linalg.norm(vec(point) - p) < 1e-5 * (1 + total) and np.linalg.norm(vec(normal) - q) < 1e-4:
                # cuts at joints/crossings: prefer the one not yet used
                return t
        return None

    used = []

    def split(solid, point, normal):
        t = which(point, normal)
        if t is None:
            probs.append("a split is not at a cut plane: %r %r" % (point, normal))
            raise RuntimeError("no such plane")
        used.append(t)
        if t in badcuts:
            raise RuntimeError("injected cut failure")
        _, lo, hi, tabs = solid
        if not lo < t < hi:
            probs.append("the piece [%g,%g] was cut at %g" % (lo, hi, t))
        # a tab joined at the lower cut stays with the lower piece
        return ("piece", lo, t, tuple(x for x in tabs)), ("piece", t, hi, ())

    sweeps = []

    def sweep(profile_, spine_, *a, **kw):
        sweeps.append((copy.deepcopy(profile_), copy.deepcopy(spine_)))
        return ("tab", len(sweeps) - 1)

    current = []

    def join(seg, tab):
        # which cut is this tab for: its spine's centre (or clipped) -> identify by the last split
        t = used[-1]
        current.append((t, seg, tab))
        if t in badunions:
            raise RuntimeError("injected union failure")
        return ("piece", seg[1], seg[2], seg[3] + ((t, tab[1]),))

    with Patch(split_solid_at_plane=split, _union_connector_with_segment=join, sweep_adaptive=sweep, sweep_profile_along_path=sweep):
        res = SG.segment_swept_element(prov, cuts, build_connectors=build, union_connectors=union)
    ctx.ev("segmented")
    d["result"] = repr(res)[:1500]
    for p in probs:
        ctx.viol("split", p, d)
    ctx.check(used == order, "order", "the cuts are not made once each in order of the parameter", dict(d, used=used))
    segs = res.segments
    good = [t for t in order if t not in badcuts]
    bounds = [0.0] + good + [1.0]
    ctx.check([tuple(s.parameter_range) for s in segs] == list(zip(bounds, bounds[1:])), "ranges", "the parameter ranges of the segments are not the pieces between the cuts", d)
    ids = [s.id for s in segs]
    ctx.check(len(set(ids)) == len(ids), "ids", "segment ids are not unique", d)
    ctx.check(all(s.parent_element_id == el for s in segs), "parent", "a segment's parent is another element", d)
    ctx.check(prov == keep[0] and cuts == keep[1], "modified", "segmenting modified its inputs", d)
    # mates
    for i, s in enumerate(segs):
        ctx.ev("segment")
        want = sorted(ids[j] for j in (i - 1, i + 1) if 0 <= j < len(ids))
        ctx.check(sorted(s.mates_with) == want, "mates", "the mates of a segment are not its neighbours", dict(d, seg=s.id, mates=s.mates_with))
        ctx.check(sorted(res.assembly_graph.get(s.id, [])) == want, "graph", "the assembly graph is not the mates", d)
    ctx.check(set(res.assembly_graph) == set(ids), "graph", "the assembly graph has other segments", d)
    # connectors: reference bookkeeping
    conn = build and wall is not None
    tabs = {i: [] for i in range(len(segs))}
    recv = {i: 0 for i in range(len(segs))}
    listed, nwarn = [], len(badcuts)
    bycut = {c.parameter: c for c in cuts}
    if conn:
        for i, t in enumerate(good):
            c = bycut[t]
            u = c.union_connector_with
            if union and u != "none":
                if t in badunions:
                    nwarn += 1
                    listed.append(t)
                    ctx.ev("seg:unionfail")
                else:
                    a, b = (i, i + 1) if u == "a" else (i + 1, i)
                    tabs[a].append(t)
                    recv[b] += 1
            else:
                listed.append(t)
    if badcuts:
        ctx.ev("seg:failed")
    ctx.check(len(res.warnings) == nwarn, "warnings", "failed cuts and unions do not give one warning each", d)
    if len(segs) == len(bounds) - 1:
        for i, s in enumerate(segs):
            want = "male" if tabs[i] else "female" if recv[i] else "none"
            ctx.ev("seg:" + want)
            ctx.check(s.connector_type == want and s.has_connector_tab == bool(tabs[i]), "gender", "a segment is marked %s (tab %s), the tabs made make it %s" % (s.connector_type, s.has_connector_tab, want), dict(d, seg=s.id))
            ok = s.solid[0] == "piece" and s.solid[1:3] == (bounds[i], bounds[i + 1]) and sorted(x[0] for x in s.solid[3]) == sorted(tabs[i])
            ctx.check(ok, "solid", "a segment does not hold the piece cut for it with its tabs", dict(d, seg=s.id, solid=s.solid, tabs=tabs[i]))
    got = sorted((c.center_parameter, c.length, c.fit_clearance) for c in res.connectors)
    want = sorted((t, bycut[t].connector_length if bycut[t].connector_length is not None else 3 * max(W, H), bycut[t].fit_clearance) for t in listed)
    ctx.ev("seg:listed", len(listed))
    ctx.check(len(got) == len(want) and all(abs(x - y) < 1e-6 for g, w in zip(got, want) for x, y in zip(g, w)), "connectors", "the separate connectors are not those that were not joined", dict(d, got=got, want=want))
    ctx.check(len({c.id for c in res.connectors}) == len(res.connectors), "connids", "connector ids are not unique", d)
    # the tab solids that were made: size and place
    made = [t for t in good if conn and union and bycut[t].union_connector_with != "none"]
    if ctx.check(len(sweeps) == len(made), "sweeps", "not one connector solid per joined tab", d):
        for t, (prof, sp) in zip(made, sweeps):
            c = bycut[t]
            b = outline_box(prof)
            e = 2 * wall + 2 * c.fit_clearance
            L = c.connector_length if c.connector_length is not None else 3 * max(W, H)
            ctx.check(abs(b[2] - b[0] - (W - e)) < 1e-5 and abs(b[3] - b[1] - (H - e)) < 1e-5, "tabsize", "a tab's section is not the inside of the beam less the cut's clearance", dict(d, t=t, box=b))
            l0 = rlen(ref, t)
            wl = min(total, l0 + L / 2) - max(0, l0 - L / 2)
            ctx.check(abs(PU.path_length(sp) - wl) < 1e-3 * (1 + total), "tablen", "a tab does not have the cut's length", dict(d, t=t, got=PU.path_length(sp), want=wl))
    # lookups, instructions
    ctx.check(res.segment_count == len(segs) and all(res.get_segment(s.id) is s for s in segs) and res.get_segment("nope") is None and [id(s) for s in res.get_segments_for_element(el)] == [id(s) for s in segs] and res.get_segments_for_element("other") == [], "lookup", "segment lookups disagree with the list", d)
    ctx.ev("instructions")
    ins = res.assembly_instructions
    d["instructions"] = ins
    lines = ins.split("\n")
    nm, nf = (sum(s.connector_type == g for s in segs) for g in ("male", "female"))
    heads = {"Total segments": len(segs), "Male segments": nm if nm + nf else None, "Female segments": nf if nm + nf else None, "Separate connectors": len(res.connectors) or None}
    for h, w in heads.items():
        g = next((int(l.rsplit(":", 1)[1]) for l in lines if l.startswith(h)), None)
        ctx.check(g == w, "inscount", "the instructions count %r %s, there are %r" % (g, h.lower(), w), d)
    pos = [next((i for i, l in enumerate(lines) if l == "%d. Place segment '%s'" % (k + 1, s.id)), None) for k, s in enumerate(segs)]
    if ctx.check(None not in pos and pos == sorted(pos) and sum("Place segment" in l for l in lines) == len(segs), "steps", "the instructions do not place every segment once in order", d):
        for k, s in enumerate(segs):
            blk = lines[pos[k]:(pos[k + 1] if k + 1 < len(segs) else len(lines))]
            fits = {0.18: "press-fit (structural)", 0.3: "slip-fit (easy assembly)", 9.0: "loose-fit (adjustable)"}
            wf = [next(v for k2, v in fits.items() if c.fit_clearance <= k2) for c in res.connectors if c.center_parameter == s.parameter_range[1]]
            ctx.check([l.split(":", 1)[1].strip() for l in blk if "Fit type:" in l] == wf, "insfit", "the fit named in the instructions is not the connector's", dict(d, seg=s.id, want=wf))
            named = sorted(c.id for c in res.connectors if any("Insert connector '%s'" % c.id in l for l in blk))
            want = sorted(c.id for c in res.connectors if c.center_parameter == s.parameter_range[1])
            ctx.check(named == want, "insconn", "the instructions insert other connectors at a joint than belong there", dict(d, seg=s.id, named=named, want=want))
            ctx.check(("MALE" in "".join(blk) and "FEMALE" not in "".join(blk)) == (s.connector_type == "male") and ("FEMALE" in "".join(blk)) == (s.connector_type == "female"), "instype", "the instructions give a segment another connector type", dict(d, seg=s.id))
            c = next((l for l in blk if "Connects to:" in l), None)
            ctx.check((sorted(x.strip() for x in c.split(":", 1)[1].split(",")) if c else []) == sorted(s.mates_with), "insmates", "the instructions connect a segment to others than its mates", dict(d, seg=s.id))
            for m in s.mates_with:
                mt = res.get_segment(m).connector_type
                ctx.check(any("Insert tab into '%s'" % m in l for l in blk) == (s.connector_type == "male" and mt == "female") and any("Receive tab from '%s'" % m in l for l in blk) == (s.connector_type == "female" and mt == "male"), "instab", "the instructions for a tab contradict the segments' types", dict(d, seg=s.id, mate=m))
    # separate connectors as solids
    if conn and res.connectors:
        sweeps.clear()
        with Patch(sweep_adaptive=sweep, sweep_profile_along_path=sweep):
            out = SG.build_connector_solids(prov, res.connectors)
        ctx.check([a[0] for a in out] == res.connectors and len(sweeps) == len(out), "build", "build_connector_solids does not build one solid per specification", d)
        for c, (prof, sp) in zip(res.connectors, sweeps):
            b = outline_box(prof)
            ctx.check(abs(b[2] - b[0] - (W - 2 * wall - 2 * c.fit_clearance)) < 1e-5, "build", "a separate connector ignores its clearance", d)
    # refusals
    bad = [lambda: SG.segment_swept_element(prov, []), lambda: SG.segment_swept_element(prov, cuts + [DT.CutPoint("other", 0.5)]), lambda: SG.segment_swept_element(DT.SweptElementProvenance(id=el, operation="sweep", outer_profile=profile, spine=path), cuts), lambda: DT.CutPoint(el, rng.choice([0.0, 1.0, -0.2, 1.3])), lambda: DT.CutPoint(el, 0.5, union_connector_with="c")]
    with Patch(split_solid_at_plane=split, _union_connector_with_segment=join, sweep_adaptive=sweep, sweep_profile_along_path=sweep):
        for f in bad:
            try:
                f()
                ctx.viol("refuse", "a bad segmentation request was accepted", d)
            except ValueError:
                ctx.ev("refused")


def g_optimal(ctx, rng):
    path, ref = rpath(rng)
    total = sum(s[3] for s in ref)
    mx = total * rng.choice([rng.uniform(0.08, 0.9), rng.uniform(0.9, 1.5), 1.0 / rng.randint(1, 6) * rng.uniform(0.999, 1.001)])
    ctx.case((repr(path), mx))
    prov = DT.SweptElementProvenance(id="b", operation="sweep", outer_profile=None, spine=path)
    cuts = SG.compute_optimal_cuts(prov, mx)
    ctx.ev("optimal")
    ctx.ev("optimal:cut", len(cuts))
    d = {"path": path, "max": mx, "total": total, "cuts": repr(cuts)}
    ts = [c.parameter for c in cuts]
    ctx.check(ts == sorted(ts) and all(0 < t < 1 for t in ts) and all(c.element_id == "b" for c in cuts), "optorder", "the proposed cuts are not increasing inside the path of the element", d)
    ls = [0.0] + [rlen(ref, t) for t in ts] + [total]
    m = max(b - a for a, b in zip(ls, ls[1:]))
    ctx.check(m <= mx * (1 + 1e-5) + 1e-6 * total, "optlen", "a proposed segment is longer than the maximum", dict(d, longest=m))
    ctx.check(len(cuts) <= math.floor(total / mx + 1e-9) + 1, "optcount", "more cuts are proposed than the maximum length needs", d)


# ------------------------------------------------------------------ rings
def ref_tilt(p, ang, axis):
    a = math.radians(ang)
    c, s = math.cos(a), math.sin(a)
    R = {"x": [[1, 0, 0], [0, c, -s], [0, s, c]], "y": [[c, 0, s], [0, 1, 0], [-s, 0, c]], "z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis.lower()]
    return np.array(R) @ np.array(p)


def g_ring(ctx, rng):
    R = rng.uniform(5, 300)
    C = rng.choice([(0.0, 0.0, 0.0), tuple(rng.uniform(-100, 100) for _ in range(3)), (0.0, 0.0, 12.5)])
    tilt, ax = rng.choice([0.0, rng.uniform(-180, 180), 90.0]), rng.choice(["x", "y", "z", "X"])
    n = rng.choice([72, rng.randint(3, 100)])
    ctx.case((R, C, tilt, ax, n))
    d = {"R": R, "C": C, "tilt": tilt, "axis": ax, "n": n}
    sp = RG.create_ring_spine(R, C, tilt, ax, n)
    ctx.ev("spine")
    segs = sp["segments"]
    ok = len(segs) == n
    for i, s in enumerate(segs):
        for key, j in (("start", i), ("end", i + 1)):
            a = 2 * math.pi * j / n
            w = ref_tilt([R * math.cos(a), R * math.sin(a), 0], tilt, ax) + np.array(C)
            ok = ok and np.linalg.norm(vec(s[key]) - w) < 1e-6 * (1 + R) and s["type"] == "line"
    ctx.check(ok, "spine", "the ring spine is not the tilted and moved circle in order", dict(d, spine=repr(sp)[:600]))
    for _ in range(3):
        a = rng.uniform(-360, 720)
        p, q = RG.compute_arc_attachment_point(R, a, C, tilt, ax)
        ctx.ev("attach")
        r = math.radians(a)
        w = ref_tilt([R * math.cos(r), R * math.sin(r), 0], tilt, ax)
        ctx.check(np.linalg.norm(vec(p) - w - np.array(C)) < 1e-6 * (1 + R) and np.linalg.norm(vec(q) + w / R) < 1e-9, "attach", "the attachment point is not on the ring with the direction to its centre", dict(d, angle=a, point=p, dir=q))
    W, H, wall = rng.uniform(2, 30), rng.uniform(2, 30), rng.uniform(0.2, 8)
    prof = RG.create_ring_profile(W, H, wall)
    hollow = min(W, H) > 2 * wall
    bx = [outline_box(o) for o in prof]
    ctx.check(len(prof) == 1 + hollow and np.allclose(bx[0], (-W / 2, -H / 2, W / 2, H / 2), atol=1e-9) and (not hollow or np.allclose(bx[1], (-W / 2 + wall, -H / 2 + wall, W / 2 - wall, H / 2 - wall), atol=1e-9)), "ringprofile", "the ring profile is not the outer rectangle with the wall inside", dict(d, W=W, H=H, wall=wall, boxes=bx))
    for o in prof:
        for e, f in zip(o, o[1:] + o[:1]):
            ctx.check(np.linalg.norm(vec(e[1]) - vec(f[0])) < 1e-9 and abs(np.linalg.norm(vec(e[1]) - vec(e[0])) - (abs(e[1][0] - e[0][0]) + abs(e[1][1] - e[0][1]))) < 1e-9, "ringoutline", "an outline of the ring profile is not a rectangle drawn in order", dict(d, prof=repr(prof)))
    log = []
    with Patch(sweep_adaptive=lambda *a, **k: log.append((a, k)) or "RING"):
        solid, prov = RG.create_ring_solid(R, W, H, wall, C, tilt, ax, ring_id="r1")
    sp72 = RG.create_ring_spine(R, C, tilt, ax)
    ctx.check(solid == "RING" and prov.id == "r1" and prov.spine == sp72 and prov.wall_thickness == wall and prov.metadata.get("solid") == "RING" and prov.outer_profile == prof and log[0][0][0] == prof[0] and log[0][0][1] == sp72 and bool(log[0][1].get("inner_profiles")) == hollow, "ringprov", "the ring's provenance is not what was swept", d)


def hdist(c, holes):
    """circular distance as a fraction of the ring"""
    return min([abs((c - h / 360.0 + 0.5) % 1.0 - 0.5) for h in holes], default=9.0)


def g_ringcut(ctx, rng):
    circ = rng.uniform(300, 3000)
    seg = rng.randint(1, 6)
    mx = circ / (seg - rng.uniform(0.05, 0.95)) if seg > 1 else circ * rng.uniform(1, 2)
    target = rng.choice([None, None, rng.randint(1, 6)])
    nh = rng.randint(0, 6)
    N = target if target is not None else math.ceil(circ / mx)
    holes = []
    for _ in range(nh):
        if rng.random() < 0.5 and N > 1:
            holes.append((360.0 * rng.randint(0, N) / N + rng.choice([0, rng.uniform(-5, 5)])) % 360.0)
        else:
            holes.append(rng.uniform(0, 360))
    dist = rng.choice([30.0, rng.uniform(2, 60)])
    kw = {} if dist == 30.0 and rng.random() < 0.5 else {"min_distance_from_hole": dist}
    if target is not None:
        kw["target_segments"] = target
    ctx.case((circ, mx, tuple(holes), dist, target))
    d = {"circ": circ, "max": mx, "holes": holes, "dist": dist, "target": target}
    f = dist / circ
    keep = list(holes)
    # room: every ideal cut has a valid place within a quarter segment
    ideal = [(i + 1) / N for i in range(N - 1)]
    room = True
    for c in ideal:
        room = room and any(hdist(c + s * k * 0.0005, holes) > f + 1e-9 and hdist(c + s * (k * 0.0005 + 0.0004), holes) > f + 1e-9 and 0.002 < c + s * k * 0.0005 < 0.998 for s in (1, -1) for k in range(int(0.25 / N / 0.0005)))
    if not room and N > 4:
        return            # the fallback enumerates combinations; its result is not judged anyway
    cuts = RG.compute_ring_cuts_avoiding_holes(circ, mx, holes, **kw)
    ctx.ev("ringcut")
    d["cuts"] = cuts
    ctx.check(holes == keep, "modified", "computing the ring cuts modified the holes", d)
    ctx.check(len(cuts) == max(0, N - 1), "cutcount", "the ring does not get one cut less than segments", d)
    ctx.check(all(0 < c < 1 for c in cuts) and all(a < b for a, b in zip(cuts, cuts[1:])), "cutorder", "the ring cuts are not increasing inside the ring", d)
    if N < 2:
        return
    if all(hdist(c, holes) > f + 1e-9 for c in ideal):
        ctx.check(np.allclose(cuts, ideal, atol=1e-9), "even", "cuts that could be evenly spaced are not", d)
    else:
        ctx.ev("ringcut:moved")
    if room:
        ctx.ev("ringcut:judged")
        bad = [c for c in cuts if hdist(c, holes) < f - 1e-9]
        ctx.check(not bad, "hole", "a ring cut is nearer to a hole than asked though there is room", dict(d, bad=bad))
        if len(cuts) == len(ideal):
            ctx.check(all(abs(a - b) <= 0.25 / N + 0.0015 for a, b in zip(cuts, ideal)), "near", "a ring cut was moved further from its even place than the holes need", d)


def g_closed(ctx, rng):
    """segment_closed_ring: the planes handed to the extraction bound each piece"""
    R = rng.uniform(20, 200)
    C = tuple(rng.uniform(-20, 20) for _ in range(3))
    tilt, ax = rng.uniform(-90, 90), rng.choice("xyz")
    sp = RG.create_ring_spine(R, C, tilt, ax)
    k = rng.randint(1, 5)
    cuts = sorted({round(rng.uniform(0.05, 0.95), 3) for _ in range(k)})
    arg = list(cuts)
    rng.shuffle(arg)
    ctx.case((R, C, tilt, ax, tuple(arg)))
    log = []
    keep = list(arg)
    def extract(solid, p1, n1, p2, n2):
        log.append((solid, p1, n1, p2, n2))
        return len(log) - 1
    with Patch(extract_segment_between_planes=extract):
        out = SG.segment_closed_ring("RING", sp, arg)
    ctx.ev("closedring")
    d = {"R": R, "cuts": arg, "tilt": tilt}
    b = [0.0] + cuts + [1.0]
    ok = len(log) == len(b) - 1 and out == list(range(len(log))) and arg == keep
    if ok:
        for (s, p1, n1, p2, n2), lo, hi in zip(log, b, b[1:]):
            a, ta = PU.evaluate_path3d_at_t(sp, lo)
            c, tc = PU.evaluate_path3d_at_t(sp, hi)
            ok = ok and s == "RING" and np.allclose(vec(p1), a) and np.allclose(vec(p2), c) and np.allclose(vec(n1), -np.array(ta)) and np.allclose(vec(n2), tc)
    ctx.check(ok, "closed", "the planes of a closed ring's segments do not bound them pointing outward", d)
    for bad in ([], [0.0], [1.0], [0.3, 1.2]):
        with Patch(extract_segment_between_planes=extract):
            try:
                SG.segment_closed_ring("RING", sp, bad)
                ctx.viol("refuse", "bad ring cuts were accepted", {"cuts": bad})
            except ValueError:
                ctx.ev("refused")


GROUPS = {
    "eval": (g_eval, 800, 20000), "sub": (g_sub, 900, 15000), "connector": (g_connector, 600, 10000), "segment": (g_segment, 1500, 20000), "optimal": (g_optimal, 300, 8000), "ring": (g_ring, 250, 3000), "ringcut": (g_ringcut, 1500, 15000), "closed": (g_closed, 130, 3000),
}

if __name__ == "__main__":
    vf.main(globals())
