import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, logging, math, shutil, tempfile, warnings
from dataclasses import replace
from pathlib import Path
import vf

PROP = "C31"
LEVEL = "exploration"
META = dict(
    title="Threads and fasteners: helical profile, closed solids, catalogue dimensions",
    statement="sample_thread_profile() gives, for every angle, the same number of samples in non-decreasing z spanning exactly [x_start, x_end], and away from the lead-in and lead-out their radii are the trapezoidal profile (crest flat, flank, root flat, depth = depth ratio times pitch, crest at the nominal radius) shifted by lead*theta/360 along the axis, forwards for right-hand and backwards for left-hand threads, with lead = pitch*starts; the depth ratio of metric_profile() and unified_profile() does not depend on the pitch. A thread surface swept from it is open only at its two ends and its seam continues the helix. Hex bolts and nuts from the catalogue, for every listed size and class, are closed outward solids that contain exactly the points their dimensions say: thread from z=0 (the default length of the standards, never more than the shank), plain shank, washer face, hexagonal head of the catalogued width across flats and height; nuts a hexagonal prism with the threaded hole; inch lengths are converted; the metadata repeat the dimensions. The catalogue returns the data of the YAML file found first (custom path, then YAPCAD_FASTENER_DATA directories in order, then user, then bundled), sizes regardless of letter case, unaffected by what callers do to earlier answers; unknown series, sizes, classes, files and schema versions are refused.",
    over=["inputs", "configurations"], q="for all profiles, angles, lengths, catalogue sizes, classes, search paths",
    why="Threads that are too deep, cut the wrong way round or open cannot be printed or machined, and a bolt that differs from its catalogue entry does not fit.",
    files=["src/yapcad/threadgen.py", "src/yapcad/fasteners_legacy.py", "src/yapcad/fasteners/catalog.py", "src/yapcad/fasteners/builders.py", "src/yapcad/fasteners/__init__.py", "src/yapcad/geom3d_util.py"],
    mech=[("sample_thread_profile", "src/yapcad/threadgen.py"), ("makeRevolutionThetaSamplingSurface", "src/yapcad/geom3d_util.py"), ("build_hex_cap_screw", "src/yapcad/fasteners_legacy.py"), ("build_hex_nut", "src/yapcad/fasteners_legacy.py"), ("load_catalog", "src/yapcad/fasteners/catalog.py")],
    technique="profiles against an independent trapezoid reference, fastener meshes against an analytic inside/outside oracle (winding numbers), catalogue lookups against an independent reading of generated search paths",
    note="Exploration. Without OCC the parts of a bolt are stacked, not united; the check judges the region they enclose. Radii inside the lead-in/out tapers are only bounded. Taper ratios other than 0 are not judged.",
)
RULE = "random thread profiles, angles and spans; all catalogue sizes and classes; generated catalogue directories; distinct by the recipe"
REQUIRE = {"samples": 600, "ref": 20000, "mid": 10000, "left": 100, "multi": 140, "refused": 300, "surface": 40, "closed": 30, "point": 1500, "inside": 400, "bolt": 20, "nut": 15, "tl": 20, "lookup": 400, "case": 10, "mutate": 60, "path": 60, "badfile": 30, "stable": 25}
WALL_QUICK = 240


def init():
    global np, mesh3, TG, FA, FL, FC, GU, yaml
    import numpy as np
    import yaml
    import mesh3
    import yapcad.threadgen as TG
    import yapcad.fasteners as FA
    import yapcad.fasteners.catalog as FC
    import yapcad.fasteners_legacy as FL
    import yapcad.geom3d_util as GU
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def refused(ctx, exc, fn, what):
    ctx.ev("refused")
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        return ctx.viol("wrong-exception", f"{what}: {type(e).__name__}: {e} instead of {exc}")
    ctx.viol("not-refused", f"{what} was accepted: {str(r)[:100]}")


def ref_radius(p, u):
    """radius of the ideal profile at the axial position u of the unshifted thread"""
    P = p.P_pitch
    x = u % P
    hi = p.D_nominal / 2
    lo = hi - p.thread_depth_ratio * P
    x = min(x, P - x)               # symmetric about the crest at 0
    a, b = p.crest_flat_ratio * P / 2, P / 2 - p.root_flat_ratio * P / 2
    if x <= a:
        return hi
    if x >= b:
        return lo
    return hi + (lo - hi) * (x - a) / (b - a)


def shift(p, theta):
    s = p.P_pitch * p.starts * theta / 360.0
    return -s if p.handedness == "left" else s


def profile(rng):
    st = rng.choice([1, 1, 1, 2, 3])
    internal = rng.random() < 0.4
    if rng.random() < 0.5:
        P = rng.choice([0.5, 0.7, 0.8, 1.0, 1.25, 1.5, 1.75, 2.0, 2.5, 3.0, rng.uniform(0.4, 3)])
        p = TG.metric_profile(P * rng.uniform(4, 9), P, strts=st, internal=internal)
    else:
        tpi = rng.choice([40, 32, 24, 20, 18, 16, 14, 13, 12, 11, 10, 9, 8])
        p = TG.unified_profile(rng.uniform(4, 9) / tpi, tpi, strts=st, internal=internal)
    if rng.random() < 0.4:
        p = replace(p, handedness=rng.choice(["left", "left", "right"]))
    return p


def g_profile(ctx, rng):
    p = profile(rng)
    P, lead = p.P_pitch, p.P_pitch * p.starts
    if not ctx.check(abs(p.lead() - lead) < 1e-12, "lead", f"{p.lead()} {lead}"):
        return
    x0 = rng.choice([0.0, 0.0, rng.uniform(-10, 10)])
    x1 = x0 + lead * rng.uniform(1.2, 7)
    spp = rng.choice([1, 1, 2, 3, 4, 6])
    ctx.case(("profile", round(p.D_nominal, 6), round(P, 6), p.starts, p.internal, p.handedness, round(x0, 6), round(x1, 6), spp))
    if p.handedness == "left":
        ctx.ev("left")
    if p.starts > 1:
        ctx.ev("multi")
    n = None
    depth = p.thread_depth_ratio * P
    hi, lo = p.D_nominal / 2, p.D_nominal / 2 - depth
    for theta in [0.0, rng.uniform(0, 360), rng.uniform(0, 360), rng.choice([90.0, 180.0, 270.0, 359.9])]:
        s, wrap = TG.sample_thread_profile(p, x0, x1, theta, samples_per_pitch=spp)
        ctx.ev("samples")
        z = [q[0] for q in s]
        r = [q[1] for q in s]
        d = dict(p=str(p), x0=x0, x1=x1, theta=theta, spp=spp)
        n = n or len(s)
        if not ctx.check(len(s) == n, "count", f"{len(s)} samples at {theta}, {n} at 0", d):
            return
        if not ctx.check(all(a <= b + 1e-12 for a, b in zip(z, z[1:])), "order", "z decreases", d):
            return
        if not ctx.check(abs(z[0] - x0) < 1e-9 and abs(z[-1] - x1) < 1e-9, "span", f"[{z[0]}, {z[-1]}] instead of [{x0}, {x1}]", d):
            return
        cap = hi + (depth if p.internal else 0)
        if not ctx.check(all(lo - 1e-9 <= q <= cap + 1e-9 for q in r), "bounds", f"radius {min(r)}..{max(r)} outside {lo}..{cap}", d):
            return
        a, b = x0 + 0.2 * lead + 1e-9, x1 - 0.2 * lead - 1e-9
        sh = shift(p, theta)
        for i in range(n):
            if not a <= z[i] <= b:
                continue
            ctx.ev("ref")
            w = ref_radius(p, z[i] - sh)
            if not ctx.check(abs(r[i] - w) < 1e-6, "radius", f"radius {r[i]} at z={z[i]}, {w} expected", d):
                return
            if i + 1 < n and z[i + 1] <= b and z[i + 1] - z[i] > 1e-9:
                ctx.ev("mid")
                m = (z[i] + z[i + 1]) / 2
                w = ref_radius(p, m - sh)
                if not ctx.check(abs((r[i] + r[i + 1]) / 2 - w) < 1e-6, "corner", f"the samples skip a corner of the profile between z={z[i]} and {z[i+1]}", d):
                    return
                ctx.check(z[i + 1] - z[i] <= P / spp + 1e-9, "density", f"{spp} samples per pitch asked, gap {z[i+1]-z[i]} at pitch {P}", d)
        # radii at the very ends: root side for the entry, nominal for the exit; both opened for nuts
        if p.internal:
            ctx.check(abs(r[0] - cap) < 1e-6 and abs(r[-1] - cap) < 1e-6, "end-radius", f"{r[0]} {r[-1]}", d)
        else:
            ctx.check(abs(r[0] - lo) < 1e-6 and abs(r[-1] - hi) < 1e-6, "end-radius", f"{r[0]} {r[-1]}", d)
    # the depth ratio is a property of the standard
    tpi = rng.uniform(4, 60)
    u = TG.unified_profile(0.5, tpi)
    ctx.check(abs(u.thread_depth_ratio - 0.64952) < 1e-9 and abs(u.P_pitch - 25.4 / tpi) < 1e-12 and abs(u.D_nominal - 12.7) < 1e-12, "unified", str(u))
    pt = rng.uniform(0.2, 6)
    m = TG.metric_profile(10.0, pt)
    ctx.check(m.thread_depth_ratio == TG.metric_profile(20.0, 1.0).thread_depth_ratio and m.P_pitch == pt and m.D_nominal == 10.0, "metric", str(m))
    refused(ctx, ValueError, lambda: TG.sample_thread_profile(p, x1, x0, 0.0), "x_end < x_start")
    refused(ctx, ValueError, lambda: TG.sample_thread_profile(p, x0, x0, 0.0), "empty span")
    refused(ctx, ValueError, lambda: TG.sample_thread_profile(replace(p, P_pitch=rng.choice([0.0, -1.0])), x0, x1, 0.0), "pitch <= 0")


def open_edges(T, z0, z1, tol=1e-5):
    ids = mesh3.weld(T, tol)
    P = {}
    for t, i in zip(T.reshape(-1, 3), ids.reshape(-1)):
        P[int(i)] = t
    inner, ends = [], [0, 0]
    for a, b in mesh3.defects(T, tol):
        za, zb = P[a][2], P[b][2]
        if max(za, zb) < z0 + 2e-5:
            ends[0] += 1
        elif min(za, zb) > z1 - 2e-5:
            ends[1] += 1
        else:
            inner.append((P[a].tolist(), P[b].tolist()))
    return inner, ends


def g_surface(ctx, rng):
    p = profile(rng)
    lead = p.P_pitch * p.starts
    L = lead * rng.uniform(1.5, 4)
    spp = rng.choice([1, 2, 4])
    arcs = rng.choice([24, 36, 50])
    ctx.case(("surface", round(p.D_nominal, 6), round(p.P_pitch, 6), p.starts, p.internal, p.handedness, round(L, 6), spp, arcs))
    s = GU.makeRevolutionThetaSamplingSurface(lambda a, b, t: TG.sample_thread_profile(p, a, b, t, samples_per_pitch=spp), 0.0, L, arcSamples=arcs)
    T = np.array(mesh3.tris(s))
    ctx.ev("surface")
    d = dict(p=str(p), L=L, spp=spp, arcs=arcs)
    inner, ends = open_edges(T, 0.0, L)
    if inner:     # facets under the library's area tolerance are left out: a gap narrower than 5e-5 is none
        inner, ends = open_edges(T, 0.0, L, 5e-5)
    if not ctx.check(not inner, "hole", f"{len(inner)} open edges inside the thread surface, e.g. {inner[:1]}", d):
        return
    ctx.check(ends == [arcs, arcs], "ends", f"open ends of {ends} edges, {arcs} expected", d)
    # each facet lies on the helicoid: its centroid in cylindrical coordinates
    c = T.mean(1)
    n = np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0])
    out = (n[:, :2] * c[:, :2]).sum(1)
    ar = np.linalg.norm(n, axis=1)
    bad = (out < -1e-6 * ar) & (ar > 1e-9)
    ctx.check(not bad.any(), "inward", f"{bad.sum()} facets face the axis", d)
    tol = p.D_nominal / 2 * (1 - math.cos(math.pi / arcs)) * 1.5 + p.P_pitch * 0.02
    for i in range(len(T)):
        if T[i, :, 2].min() < 0.2 * lead + 1e-9 or T[i, :, 2].max() > L - 0.2 * lead - 1e-9:
            continue
        th = math.degrees(math.atan2(c[i][1], c[i][0])) % 360
        r = math.hypot(c[i][0], c[i][1])
        # the facet spans one angular step; the profile at its ends brackets it
        st = 360 / arcs
        w = [ref_radius(p, c[i][2] - shift(p, th + k * st) ) for k in (-0.5, 0, 0.5)]
        dz = p.P_pitch * 0.04
        w += [ref_radius(p, c[i][2] + e - shift(p, th)) for e in (-dz, dz)]
        if not ctx.check(min(w) - tol <= r <= max(w) + tol, "helix", f"facet at radius {r}, angle {th}, z {c[i][2]}; the thread is at {min(w)}..{max(w)}", d):
            return
    ctx.ev("facet", len(T))


def hexin(x, y, af):
    return max(abs(x * math.cos(k * math.pi / 3) + y * math.sin(k * math.pi / 3)) for k in range(3)) - af / 2


def body_sd(parts, q):
    """approximate signed distance (negative inside) to the union of the parts, None where the model is not exact"""
    x, y, z = q
    best = math.inf
    for kind, z0, z1, arg in parts:
        if kind == "cyl":
            r = math.hypot(x, y) - arg
        elif kind == "hex":
            r = hexin(x, y, arg)
        best_k = max(r, z0 - z, z - z1)
        best = min(best, best_k)
    return best


def thread_r(p, q):
    th = math.degrees(math.atan2(q[1], q[0])) % 360
    return ref_radius(p, q[2] - shift(p, th))


def yaml_sizes(series):
    path = Path(FC.__file__).parent / "data" / (series + ".yaml")
    return yaml.safe_load(path.read_text())["sizes"]


def classes(d, kind):
    return [k for k in d.get("tolerances", {}) if (kind == "nut") == (k.endswith("H") or k.endswith("B"))]


def points(rng, n, rmax, z0, z1):
    for _ in range(n):
        r, t = rmax * math.sqrt(rng.random()), rng.uniform(0, 2 * math.pi)
        yield (r * math.cos(t), r * math.sin(t), rng.uniform(z0, z1))


def probe(ctx, T, qs, inside, d, mech):
    for q in qs:
        w = inside(q)
        if w is None:
            continue
        ctx.ev("point")
        if w:
            ctx.ev("inside")
        g = mesh3.winding(T, np.array([q]))[0]
        if not ctx.check(abs(g - (1.0 if w else 0.0)) < 0.01, mech, f"point {q} is {'inside' if w else 'outside'} the fastener, winding number {g:.3f}", d):
            return


def g_bolt(ctx, rng):
    series = rng.choice(["metric_coarse", "unified_coarse"])
    sizes = yaml_sizes(series)
    size = rng.choice(sorted(sizes))
    dat = sizes[size]
    if "hex_bolt" not in dat:
        return ctx.ev("nobolt")
    cls = rng.choice(classes(dat, "bolt"))
    D, P = dat["nominal_diameter"], dat["pitch"]
    unit = 1.0 if series == "metric_coarse" else 25.4
    st = rng.choice([1, 1, 1, 2])
    ln = P * rng.uniform(6, 14) + (rng.choice([0, 0, 2 * D + 8]))
    if rng.random() < 0.1:
        ln = rng.choice([130, 190, 205, 260]) if D < 8 else ln
    tl = rng.choice([None, None, ln * rng.uniform(0.4, 0.9), ln * 2])
    arcs, spp = rng.choice([24, 30, 40]), rng.choice([2, 3])
    kw = dict(tolerance_class=cls, thread_length=None if tl is None else tl / unit, starts=st, thread_arc_samples=arcs, thread_samples_per_pitch=spp)
    d = dict(series=series, size=size, ln=ln, kw=kw)
    ctx.case(("bolt", series, size, round(ln, 5), cls, None if tl is None else round(tl, 5), st, arcs, spp))
    fn = FA.metric_hex_bolt if unit == 1 else FA.unified_hex_bolt
    b = fn(size, ln / unit, **kw)
    ctx.ev("bolt")
    std = 2 * D + (6 if ln <= 125 else 12 if ln <= 200 else 25)
    L = min(std if tl is None else tl, ln)
    ctx.ev("tl")
    h = dat["hex_bolt"]
    wt, wd = h.get("washer_face_thickness", 0.5), h.get("washer_face_diameter") or h["width_across_flats"]
    meta = vf_meta(b).get("hex_cap_screw", {})
    exp = dict(diameter=D, thread_length=L, shank_length=ln, head_height=h["head_height"], head_flat=h["width_across_flats"], washer_thickness=wt, washer_diameter=wd)
    ctx.check(all(abs(meta.get(k, -1) - v) < 1e-6 for k, v in exp.items()), "meta", f"{meta} instead of {exp}", d)
    check_bolt(ctx, rng, b, D, dat.get("tolerances", {}).get(cls, {}).get("es", 0.0), P, st, L, ln, wt, wd, h["head_height"], h["width_across_flats"], 0.57, arcs, d)


def vf_meta(s):
    from yapcad.metadata import get_solid_metadata
    return get_solid_metadata(s, create=True)


def check_bolt(ctx, rng, b, D, es, P, st, L, ln, wt, wd, hh, af, ratio, arcs, d):
    T = np.array(mesh3.tris(b))
    bx = mesh3.box(T)
    top = ln + wt + hh
    ctx.check(abs(bx[0][2]) < 1e-6 and abs(bx[1][2] - top) < 1e-6, "extent", f"z {bx[0][2]}..{bx[1][2]}, {top} expected", d)
    ctx.check(abs(bx[1][0] - af / 2) < 1e-6 and abs(bx[0][0] + af / 2) < 1e-6, "flats", f"{bx[0][0]}..{bx[1][0]} across flats {af}", d)
    if not ctx.check(not mesh3.defects(T), "open", "the bolt is not closed", d):
        return
    ctx.ev("closed")
    p = replace(TG.metric_profile(D + es, P, strts=st), thread_depth_ratio=ratio)
    lead = P * st
    parts = [("cyl", L, ln, D / 2)] * (ln - L > 1e-6) + [("cyl", ln, ln + wt, wd / 2)] * (wt > 1e-6) + [("hex", ln + wt, top, af)]
    mar = 0.03 * P + D * (1 - math.cos(math.pi / 24))

    def inside(q):
        s = body_sd(parts, q)
        if -mar < s < mar:
            return None
        if q[2] < L and q[2] > 0:
            r = math.hypot(q[0], q[1])
            if r < (D + es) / 2 - ratio * P - mar:
                return True if min(q[2], L - q[2]) > 1e-3 else None
            if r > (D + es) / 2 + mar:
                return s < 0
            if not 0.2 * lead + 0.45 * P < q[2] < L - 0.2 * lead - 0.45 * P:
                return None
            w = thread_r(p, q)
            if abs(w - r) < mar * 1.5:
                return None
            return r < w or s < 0
        if min(abs(q[2]), abs(q[2] - L)) < mar:
            return None
        return s < 0
    qs = list(points(rng, 25, af * 0.7, -1, top + 1))
    qs += list(points(rng, 15, wd / 2 * 1.1, ln - 1, ln + 2 * wt))
    for _ in range(40):
        r, t = rng.uniform((D + es) / 2 - ratio * P * 0.95, (D + es) / 2), rng.uniform(0, 2 * math.pi)
        qs.append((r * math.cos(t), r * math.sin(t), rng.uniform(0, L)))
    probe(ctx, T, qs, inside, d, "bolt-shape")


def g_nut(ctx, rng):
    series = rng.choice(["metric_coarse", "unified_coarse"])
    sizes = yaml_sizes(series)
    size = rng.choice(sorted(sizes))
    dat = sizes[size]
    if "hex_nut" not in dat:
        return ctx.ev("nonut")
    cls = rng.choice(classes(dat, "nut"))
    D, P = dat["nominal_diameter"], dat["pitch"]
    st = rng.choice([1, 1, 2])
    hand = rng.choice(["right", "left"])
    arcs, spp = rng.choice([24, 36, 60]), rng.choice([2, 3])
    d = dict(series=series, size=size, cls=cls, st=st, hand=hand, arcs=arcs, spp=spp)
    ctx.case(("nut", series, size, cls, st, hand, arcs, spp))
    fn = FA.metric_hex_nut if series == "metric_coarse" else FA.unified_hex_nut
    nut = fn(size, tolerance_class=cls, handedness=hand, starts=st, thread_arc_samples=arcs, thread_samples_per_pitch=spp)
    ctx.ev("nut")
    body = dat["hex_nut"]
    af, H = body["width_across_flats"], body["thickness"]
    ei = dat["tolerances"][cls].get("EI", 0.0)
    meta = vf_meta(nut).get("hex_nut", {})
    exp = dict(diameter=D, pitch=P, width_flat=af, thickness=H, starts=st, handedness=hand)
    ctx.check(all(meta.get(k) == v for k, v in exp.items()), "meta", f"{meta} instead of {exp}", d)
    p = replace(TG.metric_profile(D + ei, P, strts=st, internal=True), handedness=hand, thread_depth_ratio=0.57)
    check_nut(ctx, rng, nut, p, af, H, d)


def check_nut(ctx, rng, nut, p, af, H, d):
    T = np.array(mesh3.tris(nut))
    bx = mesh3.box(T)
    ctx.check(abs(bx[0][2]) < 1e-6 and abs(bx[1][2] - H) < 1e-6 and abs(bx[1][0] - af / 2) < 1e-6 and abs(bx[0][0] + af / 2) < 1e-6, "extent", f"{bx} for {af} x {H}", d)
    if not ctx.check(not mesh3.defects(T), "open", "the nut is not closed", d):
        return
    ctx.ev("closed")
    P, lead = p.P_pitch, p.P_pitch * p.starts
    hi = p.D_nominal / 2
    lo = hi - p.thread_depth_ratio * P
    mar = 0.03 * P + p.D_nominal * (1 - math.cos(math.pi / 24))

    def inside(q):
        z, r = q[2], math.hypot(q[0], q[1])
        s = max(hexin(q[0], q[1], af), -z, z - H)
        if s > 1e-3:
            return False
        if s > -1e-3:
            return None
        if r < lo - mar:
            return False
        if r > hi + p.thread_depth_ratio * P + mar:
            return True
        if not 0.2 * lead + 0.45 * P < z < H - 0.2 * lead - 0.45 * P:
            return None
        w = thread_r(p, q)
        if abs(r - w) < mar * 1.5:
            return None
        return r > w
    qs = list(points(rng, 30, af * 0.7, -0.5, H + 0.5))
    for _ in range(40):
        r, t = rng.uniform(lo, hi + 0.2 * P), rng.uniform(0, 2 * math.pi)
        qs.append((r * math.cos(t), r * math.sin(t), rng.uniform(0, H)))
    probe(ctx, T, qs, inside, d, "nut-shape")


def g_spec(ctx, rng):
    """the spec-level builders and the tabulated convenience functions"""
    k = rng.randrange(3)
    arcs = rng.choice([24, 36])
    if k == 0:
        P = rng.uniform(0.6, 2)
        D = P * rng.uniform(5, 8)
        ln = P * rng.uniform(5, 12)
        L = ln * rng.choice([1.0, rng.uniform(0.4, 0.95)])
        af = D * rng.uniform(1.4, 2)
        sp = FL.HexCapScrewSpec(D, L, ln, D * 0.6, af, washer_thickness=rng.choice([0.0, 0.6]), washer_diameter=rng.choice([None, af * 0.93]), thread_arc_samples=arcs, thread_samples_per_pitch=2)
        ctx.case(("spec", round(P, 6), round(D, 6), round(ln, 6), round(L, 6), arcs))
        b = FL.build_hex_cap_screw(TG.metric_profile(D, P), sp)
        ctx.ev("bolt")
        check_bolt(ctx, rng, b, D, 0.0, P, 1, L, ln, sp.washer_thickness, sp.washer_diameter or af, sp.head_height, af, TG.metric_profile(D, P).thread_depth_ratio, arcs, dict(spec=str(sp), P=P))
        for kw in (dict(diameter=0.0), dict(thread_length=0.0), dict(thread_length=ln * 1.1), dict(head_height=0.0), dict(head_flat_diameter=D * 0.99), dict(thread_arc_samples=11), dict(thread_samples_per_pitch=0)):
            if rng.random() < 0.4:
                refused(ctx, ValueError, lambda: FL.build_hex_cap_screw(TG.metric_profile(D, P), replace(sp, **kw)), f"spec {kw}")
    elif k == 1:
        met = rng.random() < 0.5
        tab = FL.metric_hex_cap_catalog() if met else FL.unified_hex_cap_catalog()
        size = rng.choice(sorted(tab))
        t = tab[size]
        ln = rng.uniform(8, 30)
        ctx.case(("legacy", size, round(ln, 6), arcs))
        tl = rng.choice([None, ln * rng.uniform(0.5, 1.5)])
        if met:
            b = FL.metric_hex_cap_screw(size.lower() if rng.random() < 0.5 else size, ln, thread_length=tl, thread_arc_samples=arcs, thread_samples_per_pitch=2)
            P, ratio = t["pitch"], TG.metric_profile(8, 1).thread_depth_ratio
        else:
            b = FL.unified_hex_cap_screw(size, ln / 25.4, thread_length_in=None if tl is None else tl / 25.4, thread_arc_samples=arcs, thread_samples_per_pitch=2)
            P, ratio = 25.4 / t["tpi"], 0.64952
        ctx.ev("bolt")
        m = vf_meta(b)["hex_cap_screw"]
        D = t["diameter"]
        L = m["thread_length"] if tl is None else min(tl, ln)
        ctx.check(0 < L <= ln + 1e-9 and abs(m["thread_length"] - L) < 1e-6 and abs(m["shank_length"] - ln) < 1e-6 and m["diameter"] == D and m["head_flat"] == t["head_flat"], "meta", f"{m} for {size} {ln} {tl}")
        check_bolt(ctx, rng, b, D, 0.0, P, 1, L, ln, m["washer_thickness"], m["washer_diameter"], t["head_height"], t["head_flat"], ratio, arcs, dict(size=size, ln=ln, tl=tl))
        # the tables are copies
        tab[size]["diameter"] = -1
        ctx.check((FL.metric_hex_cap_catalog() if met else FL.unified_hex_cap_catalog())[size]["diameter"] == D, "table-shared", size)
    else:
        met = rng.random() < 0.5
        tab = FL.metric_hex_nut_catalog() if met else FL.unified_hex_nut_catalog()
        size = rng.choice(sorted(tab))
        t = tab[size]
        hand = rng.choice(["right", "left"])
        ctx.case(("legacynut", size, hand, arcs))
        n = (FL.metric_hex_nut if met else FL.unified_hex_nut)(size, handedness=hand, thread_arc_samples=arcs, thread_samples_per_pitch=2)
        ctx.ev("nut")
        p = TG.metric_profile(t["diameter"], t["pitch"], internal=True) if met else TG.unified_profile(t["diameter"] / 25.4, t["tpi"], internal=True)
        p = replace(p, handedness=hand)
        check_nut(ctx, rng, n, p, t["width_flat"], t["thickness"], dict(size=size, hand=hand, arcs=arcs))
        sp = FL.HexNutSpec(8.0, 1.25, rng.choice([13.0, 0.0]), 0.0)
        refused(ctx, ValueError, lambda: FL.build_hex_nut(p, sp), "nut of no thickness")


def scramble(x, rng):
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                scramble(x[k], rng)
            elif rng.random() < 0.7:
                x[k] = "overwritten"
            if rng.random() < 0.2:
                del x[k]
        x["extra"] = 1


def g_catalog(ctx, rng):
    series = rng.choice(["metric_coarse", "unified_coarse"])
    sizes = yaml_sizes(series)
    ctx.case(("catalog", series, rng.random()))
    ctx.check(FC.list_available_sizes(series) == sorted(sizes), "sizes", f"{FC.list_available_sizes(series)}")
    for _ in range(6):
        size = rng.choice(sorted(sizes))
        dat = sizes[size]
        var = rng.choice([size, size, size.lower(), size.upper()])
        ctx.ev("lookup")
        if var != size:
            ctx.ev("case")
        cls = rng.choice([None] + list(dat["tolerances"]))
        got = FC.get_thread_data(series, var, cls)
        if not ctx.check(got == dat, "thread-data", f"{series} {var} {cls}: {str(got)[:300]}"):
            return
        nom, mi, pi = got["nominal_diameter"], got["basic_minor_diameter"], got["basic_pitch_diameter"]
        ctx.check(0 < mi < pi < nom and abs(pi - (nom - 0.6495 * got["pitch"])) < 0.011 and abs(mi - (nom - 1.0825 * got["pitch"])) < 0.016, "thread-table", f"{series} {size}: nominal {nom} pitch {got['pitch']} pitch dia {pi} minor {mi}")
        for kind, fn, key in (("bolt", FC.get_bolt_data, "hex_bolt"), ("nut", FC.get_nut_data, "hex_nut")):
            cl = classes(dat, kind)
            if key not in dat or not cl:
                continue
            c = rng.choice(cl)
            ctx.ev("lookup")
            g = fn(series, var, c)
            part = g["head" if kind == "bolt" else "body"]
            th = g["thread"]
            ok = part == dat[key] and th["nominal_diameter"] == nom and th["pitch"] == dat["pitch"] and th["tolerance_class"] == c and th["tolerances"] == dat["tolerances"][c] and (th.get("internal") is True) == (kind == "nut") and th["basic_minor_diameter"] == mi and th["basic_pitch_diameter"] == pi
            ctx.check(ok, "part-data", f"{kind} {series} {size} {c}: {g}")
            ctx.check(part["width_across_flats"] > nom, "part-table", f"{kind} {size}: {part}")
            scramble(g, rng)
        scramble(got, rng)
        ctx.ev("mutate")
        if rng.random() < 0.5:
            scramble(FC.load_catalog(series), rng)
            FC.list_available_sizes(series).append("X")
        if not ctx.check(FC.get_thread_data(series, size) == dat, "cache-shared", f"a caller's change to an earlier answer changed {series} {size}"):
            FC.clear_cache()
            return
    refused(ctx, KeyError, lambda: FC.get_thread_data(series, rng.choice(["M999", "", "1/999-1", "M8x1"])), "unknown size")
    refused(ctx, KeyError, lambda: FC.get_thread_data(series, size, rng.choice(["9z", "6G6G", "x"])), "unknown class")
    refused(ctx, ValueError, lambda: FC.load_catalog(rng.choice(["metric", "", "acme", "../metric_coarse", "Metric_Coarse"])), "unknown series")
    tc = yaml.safe_load((Path(FC.__file__).parent / "data" / (series + ".yaml")).read_text())["tolerance_classes"]
    ctx.check(FC.list_tolerance_classes(series) == sorted(tc), "classes", str(FC.list_tolerance_classes(series)))


def mk_cat(rng, tag, bad=None):
    c = {"schema_version": rng.choice(["1.0", "1.3"]), "standard": tag, "sizes": {"M8": {"nominal_diameter": 8.0 + rng.random(), "pitch": 1.25, "tolerances": {"6g": {"es": -0.01}}}, tag: {"nominal_diameter": 1.0}}}
    if bad == "version":
        c["schema_version"] = rng.choice(["2.0", "0.9", 1.0, 2, "v1", "10.0"])
    elif bad == "nosizes":
        del c["sizes"]
    elif bad == "list":
        c = [c]
    elif bad == "empty":
        return ""
    return yaml.safe_dump(c)


def g_paths(ctx, rng):
    root = tempfile.mkdtemp(prefix="vf31")
    env0, home0 = os.environ.get("YAPCAD_FASTENER_DATA"), os.environ.get("HOME")
    try:
        os.environ["HOME"] = os.path.join(root, "home")
        user = Path(root, "home", ".config", "yapcad", "fasteners")
        nd = rng.choice([0, 1, 2, 3])
        dirs = [Path(root, f"d{i}") for i in range(nd)]
        series = ["metric_coarse", "metric_fine", "unified_coarse", "unified_fine"]
        have = {}
        for i, p in enumerate(dirs):
            if rng.random() < 0.8:
                p.mkdir(parents=True)
            for s in series:
                if p.is_dir() and rng.random() < 0.5:
                    (p / (s + ".yaml")).write_text(mk_cat(rng, f"d{i}-{s}"))
                    have[i, s] = f"d{i}-{s}"
        if rng.random() < 0.6:
            user.mkdir(parents=True)
            for s in series:
                if rng.random() < 0.5:
                    (user / (s + ".yaml")).write_text(mk_cat(rng, f"user-{s}"))
                    have["user", s] = f"user-{s}"
        os.environ["YAPCAD_FASTENER_DATA"] = ":".join([rng.choice([str(p), " " + str(p) + " "]) for p in dirs] + [""] * rng.randrange(2))
        if not dirs and rng.random() < 0.5:
            del os.environ["YAPCAD_FASTENER_DATA"]
        FC.clear_cache()
        ctx.case(("paths", nd, tuple(sorted(map(str, have)))))
        for s in series:
            ctx.ev("path")
            want = next((have[i, s] for i in list(range(nd)) + ["user"] if (i, s) in have), None)
            if want is None and s.endswith("_coarse"):
                c = FC.load_catalog(s)
                ctx.check(c["thread_series"] == s and c["sizes"] == yaml_sizes(s), "bundled", f"{s}: {c.get('_source_path')}")
                continue
            if want is None:
                refused(ctx, FileNotFoundError, lambda: FC.load_catalog(s), f"{s}, which no directory has")
                continue
            c = FC.load_catalog(s)
            ctx.check(c["standard"] == want and want in c["sizes"], "search-order", f"{s} came from {c.get('_source_path')}, {want} expected")
            ctx.check(want in FC.list_available_sizes(s), "search-order", f"list_available_sizes({s})")
            # cached until told otherwise
            src = Path(c["_source_path"])
            old = src.read_text()
            src.write_text(mk_cat(rng, "changed"))
            FC.clear_cache()
            ctx.ev("stable")
            ctx.check(FC.load_catalog(s)["standard"] == "changed", "clear-cache", f"{s} still the old one after clear_cache()")
            src.write_text(old)
            FC.clear_cache()
        cust = Path(root, "my.yaml")
        cust.write_text(mk_cat(rng, "custom"))
        ctx.ev("path")
        c = FC.load_catalog("metric_coarse", custom_path=cust)
        ctx.check(c["standard"] == "custom", "custom", str(c)[:100])
        g = FC.get_thread_data("metric_coarse", "m8", "6g", custom_path=cust)
        ctx.check(g == yaml.safe_load(cust.read_text())["sizes"]["M8"], "custom", str(g))
        refused(ctx, FileNotFoundError, lambda: FC.load_catalog("metric_coarse", custom_path=Path(root, "nothere.yaml")), "a missing custom file")
        for bad in ("version", "nosizes", "list", "empty"):
            p = Path(root, bad + ".yaml")
            p.write_text(mk_cat(rng, "bad", bad))
            ctx.ev("badfile")
            refused(ctx, ValueError, lambda: FC.load_catalog("metric_coarse", custom_path=p), f"catalogue with bad {bad}: {p.read_text()[:60]!r}")
    finally:
        for k, v in (("YAPCAD_FASTENER_DATA", env0), ("HOME", home0)):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        FC.clear_cache()
        shutil.rmtree(root, ignore_errors=True)


GROUPS = {"profile": (g_profile, 500, 20000), "surface": (g_surface, 60, 1200), "bolt": (g_bolt, 40, 900), "nut": (g_nut, 40, 800), "spec": (g_spec, 40, 600), "catalog": (g_catalog, 40, 800), "paths": (g_paths, 30, 600)}

if __name__ == "__main__":
    vf.main(globals())
