import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, hashlib, json, math, random, re, shutil, tempfile
import numpy as np
import vf

PROP = "C22"
LEVEL = "exploration"
META = dict(
    title="DSL built-ins compute what they name; runs, provenance and packages agree",
    statement="Every DSL built-in does what its documented signature says, in its units (angles in degrees for rotations, arcs and ellipses; radians for trigonometry): mathematical functions equal the real functions or end the run with an error outside their domain; point and vector queries are Euclidean; solid constructors give closed outward solids of the documented dimensions and position (sphere, cylinder and cone take radii, tubes and shells diameters; box and sphere centred, cylinder and cone from z=0); translate, rotate, scale, mirror and apply move every vertex by the documented affine map, vectors ignore translations, and the argument solid stays as it was; volume, surface_area and centroid measure the mesh, area and perimeter the region with its holes; rectangles, polygons and disks are the named shapes; curve sampling, curve_length, path3d_eval and path3d_length follow the curve; patterns give the asked number of placed copies and their type; compound keeps all bodies. Every built-in the checker and the introspection API offer exists at run time. A program gives the same geometry each time it is run, whatever ran before, and shares nothing with earlier results. Provenance records module, command, parameters and a source signature that only line endings and outer blanks leave unchanged, and survives to_dict/from_dict. package_from_dsl writes a valid package holding the emitted geometry, the provenance and the exact source; a failing program writes none.",
    over=["inputs", "histories"], q="for all arguments, call compositions and run histories",
    why="A design is only as right as its built-ins: a half-sized sphere, a wrong hand or degrees for radians type-checks and renders; the tests mostly check that a solid comes back.",
    files=["src/yapcad/dsl/runtime/builtins.py", "src/yapcad/dsl/symbols.py", "src/yapcad/dsl/runtime/provenance.py", "src/yapcad/dsl/packaging.py", "src/yapcad/dsl/introspection.py", "src/yapcad/dsl/runtime/interpreter.py"],
    mech=[("BuiltinRegistry", "src/yapcad/dsl/runtime/builtins.py"), ("Provenance, compute_source_signature", "src/yapcad/dsl/runtime/provenance.py"), ("package_from_dsl", "src/yapcad/dsl/packaging.py"), ("get_api_reference", "src/yapcad/dsl/introspection.py")],
    technique="reference-model monitor: each built-in is run through real DSL programs and compared with an independent analytic model (math, matrices, mesh measures, region and curve integrals); replay monitor for determinism and isolation",
    note="Exploration. Built-ins that need pythonocc (extrude, sweep, fillet, edge selection, herringbone gear), boolean results (C10), text and fasteners (C31) are not measured here; exp is compared inside its documented clamp |x|<=700; mirror is compared for axis normals. Built-ins offered without an implementation are known findings.",
)
RULE = "random calls and call chains inside real programs, with random parameters; distinct by source and parameters"
REQUIRE = {"math": 300, "math-error": 30, "solid": 60, "xform": 60, "region": 60, "curve": 100, "path3d": 60, "pattern": 40, "rerun": 30, "provenance": 100, "package": 10, "builtin": 100}
WALL_QUICK = 250


def init():
    global D, M, G, gj, SYM, INTRO, BI, PK, V, pkg
    from yapcad import dsl as D
    import mesh3 as M, gen2d as G
    from yapcad.io import geometry_json as gj
    from yapcad.dsl import symbols as SYM, introspection as INTRO, packaging as PK
    from yapcad.dsl.runtime import builtins as BI, provenance as V
    from yapcad import package as pkg


def lit(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, int):
        return str(x)
    s = repr(float(x))
    return s if "e" not in s else ("%.24f" % x if abs(x) < 1 else s)


def prog(body, ret, params=""):
    return "module chk\n\ncommand MAIN(%s) -> %s:\n" % (params, ret) + "".join("    %s\n" % l for l in body)


def run(src, params=None):
    return D.compile_and_run(src, "MAIN", params or {})


def fx(rng, lo, hi):
    x = round(rng.uniform(lo, hi), rng.choice((0, 1, 3, 6))) if rng.random() < .5 else rng.uniform(lo, hi)
    return min(hi, max(lo, float(x)))


def close(a, b, tol=1e-9, s=0.0):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b), s)


# ---------------------------------------------------------------- math
def _dom(f):
    def w(*a):
        try:
            r = f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        return r
    return w


MATH = {
    "sin": (1, math.sin), "cos": (1, math.cos), "tan": (1, math.tan), "asin": (1, math.asin), "acos": (1, math.acos),
    "atan": (1, math.atan), "atan2": (2, math.atan2), "sqrt": (1, math.sqrt), "abs": (1, abs), "radians": (1, math.radians),
    "degrees": (1, math.degrees), "pow": (2, math.pow), "exp": (1, math.exp), "log": (1, math.log), "log10": (1, math.log10),
    "min": (-1, min), "max": (-1, max), "pi": (0, lambda: math.pi), "tau": (0, lambda: math.tau),
}
MATHI = {"floor": math.floor, "ceil": math.ceil, "round": round}


def g_math(ctx, rng):
    for _ in range(12):
        f = rng.choice(list(MATH) + list(MATHI))
        integer = f in MATHI
        n, ref = (1, MATHI[f]) if integer else MATH[f]
        if n < 0:
            n = rng.randint(2, 5)
        k = rng.random()
        args = []
        for _ in range(n):
            c = rng.random()
            if f in ("asin", "acos"):
                x = rng.choice((-1.0, 1.0, 0.0, 1.0000001, -1.5)) if c < .3 else rng.uniform(-1, 1)
            elif f in ("log", "log10", "sqrt"):
                x = rng.choice((0.0, -1.0, -1e-300, 1e-300, 1e300)) if c < .3 else math.exp(rng.uniform(-20, 20))
            elif f == "exp":
                x = rng.uniform(-690, 690)
            elif f == "pow":
                x = rng.choice((0.0, -1.0, -2.0, 2.0, 0.5, 1e3, -0.5, 400.0)) if c < .5 else rng.uniform(-6, 6)
            elif integer:
                x = rng.choice((0.5, 1.5, 2.5, -0.5, -1.5, 2.0, -3.0)) if c < .4 else rng.uniform(-1e6, 1e6)
            else:
                x = float(rng.randint(-5, 5)) if c < .3 else rng.uniform(-50, 50)
            args.append(x)
        exp = _dom(ref)(*args)
        names = "abcdef"[:n]
        ints = [isinstance(a, float) and a == int(a) and abs(a) < 1e6 and rng.random() < .3 for a in args]
        inline = rng.random() < .4 and all(abs(a) < 1e15 and (a == 0 or abs(a) > 1e-9) for a in args)
        ret = "int" if integer else "float"
        if inline:
            src = prog(["emit %s(%s)" % (f, ", ".join(lit(int(a)) if i else lit(a) for a, i in zip(args, ints)))], ret)
            r = run(src)
        else:
            src = prog(["emit %s(%s)" % (f, ", ".join(names))], ret, ", ".join("%s: float" % x for x in names))
            r = run(src, {x: (int(a) if i else a) for x, a, i in zip(names, args, ints)})
        ctx.case((f, args))
        ctx.ev("math")
        if exp is None or (isinstance(exp, complex)):
            ctx.ev("math-error")
            ctx.check(not r.success, "math:" + f, lambda: f"{f}{args} outside its domain gave {r.geometry!r}", src)
        else:
            ok = r.success and isinstance(r.geometry, (int, float)) and not isinstance(r.geometry, bool)
            ok = ok and (r.geometry == exp if integer else close(r.geometry, exp, 1e-12) if exp == 0 or abs(exp) < 1e-3 and False else
                         (r.geometry == exp or abs(r.geometry - exp) <= 1e-12 * max(abs(exp), 1e-300)))
            ctx.check(ok, "math:" + f, lambda: f"{f}{args} gave {r.geometry!r} ({r.error_message}), expected {exp!r}", src)


# ---------------------------------------------------------------- solids
def mesh_ok(ctx, name, s, src, manifold=True):
    T = M.tris(s)
    d = M.defects(T)
    ctx.check(not any(d.values()) if isinstance(d, dict) else not d, "mesh:" + name, lambda: f"{name}: not a closed surface {d}", src)
    return T


def verts(s):
    return np.array([v[:3] for sf in s[1] for v in sf[1]], float)


def usedv(s):
    return M.tris(s).reshape(-1, 3)


def cap(P, z, tol):
    return np.abs(P[:, 2] - z) <= tol


def g_solid(ctx, rng):
    k = rng.choice(("box", "cylinder", "sphere", "cone", "cone0", "oblate_spheroid", "dodecahedron", "tube", "conic_tube", "spherical_shell"))
    big = 10 ** rng.uniform(-0.3, 2)
    lo = None
    if k == "box":
        a = [fx(rng, .5, 50) for _ in range(3)]
        vol, lo, hi = a[0] * a[1] * a[2], [-x / 2 for x in a], [x / 2 for x in a]
        area, c, slack = 2 * (a[0] * a[1] + a[1] * a[2] + a[0] * a[2]), (0, 0, 0), 1e-9
        on = lambda P, t: (np.abs(np.abs(P) - np.array(hi)) < t).all(1)
    elif k == "cylinder":
        r, h = big, fx(rng, .5, 40)
        a = [r, h]
        vol, area, c, slack = math.pi * r * r * h, 2 * math.pi * r * (r + h), (0, 0, h / 2), .06
        lo, hi = [-r, -r, 0], [r, r, h]
        on = lambda P, t: (cap(P, 0, t) | cap(P, h, t)) & ((np.abs(np.hypot(P[:, 0], P[:, 1]) - r) < t) | (np.hypot(P[:, 0], P[:, 1]) < t))
    elif k == "sphere":
        r = big
        a = [r]
        vol, area, c, slack = 4 / 3 * math.pi * r ** 3, 4 * math.pi * r * r, (0, 0, 0), .08
        lo, hi = [-r] * 3, [r] * 3
        on = lambda P, t: np.abs(np.linalg.norm(P, axis=1) - r) < t
    elif k in ("cone", "cone0"):
        r1, r2, h = big, 0.0 if k == "cone0" else big * rng.choice((rng.uniform(.2, .95), rng.uniform(1.05, 2))), fx(rng, .5, 40)
        a = [r1, r2, h]
        vol = math.pi * h / 3 * (r1 * r1 + r1 * r2 + r2 * r2)
        area = math.pi * (r1 * r1 + r2 * r2) + math.pi * (r1 + r2) * math.hypot(h, r1 - r2)
        c = (0, 0, h / 4 * (r1 * r1 + 2 * r1 * r2 + 3 * r2 * r2) / (r1 * r1 + r1 * r2 + r2 * r2))
        slack = .06
        R = max(r1, r2)
        lo, hi = [-R, -R, 0], [R, R, h]
        on = lambda P, t: (cap(P, 0, t) | cap(P, h, t)) & ((np.abs(np.hypot(P[:, 0], P[:, 1]) - (r1 + (r2 - r1) * P[:, 2] / h)) < t) | (np.hypot(P[:, 0], P[:, 1]) < t))
    elif k == "oblate_spheroid":
        d, f = 2 * big, rng.uniform(0.003, .5)
        a = [d, f]
        e, p = d / 2, d / 2 * (1 - f)
        vol, area, c, slack = 4 / 3 * math.pi * e * e * p, None, (0, 0, 0), .08
        lo, hi = [-e, -e, -p], [e, e, p]
        on = lambda P, t: np.abs(np.sqrt((P[:, 0] ** 2 + P[:, 1] ** 2) / e ** 2 + P[:, 2] ** 2 / p ** 2) - 1) < t
    elif k == "dodecahedron":
        d = 2 * big
        a = [d]
        edge = d / 2 / (math.sqrt(3) * (1 + math.sqrt(5)) / 4)
        vol, area, c, slack = (15 + 7 * math.sqrt(5)) / 4 * edge ** 3, 3 * math.sqrt(25 + 10 * math.sqrt(5)) * edge ** 2, (0, 0, 0), 1e-6
        lo, hi = None, None
        on = lambda P, t: np.abs(np.linalg.norm(P, axis=1) - d / 2) < max(t, 1e-6 * d)
    elif k == "tube":
        od, L = 2 * big, fx(rng, .5, 40)
        w = od / 2 * rng.uniform(.05, .9)
        a = [od, w, L]
        R, r = od / 2, od / 2 - w
        vol, area, c, slack = math.pi * (R * R - r * r) * L, 2 * math.pi * (R + r) * L + 2 * math.pi * (R * R - r * r), (0, 0, L / 2), .1
        lo, hi = [-R, -R, 0], [R, R, L]
        on = lambda P, t: (cap(P, 0, t) | cap(P, L, t)) & ((np.abs(np.hypot(P[:, 0], P[:, 1]) - R) < t) | (np.abs(np.hypot(P[:, 0], P[:, 1]) - r) < t))
    elif k == "conic_tube":
        b, tp, L = 2 * big, 2 * big * rng.uniform(.5, 1.6), fx(rng, .5, 40)
        w = min(b, tp) / 2 * rng.uniform(.08, .8)
        a = [b, tp, w, L]
        R0, R1 = b / 2, tp / 2
        fr = lambda p, q: math.pi * L / 3 * (p * p + p * q + q * q)
        vol, area, slack = fr(R0, R1) - fr(R0 - w, R1 - w), None, .12
        c = None
        R = max(R0, R1)
        lo, hi = [-R, -R, 0], [R, R, L]
        def on(P, t):
            q, o = np.hypot(P[:, 0], P[:, 1]), R0 + (R1 - R0) * P[:, 2] / L
            return (cap(P, 0, t) | cap(P, L, t)) & ((np.abs(q - o) < t) | (np.abs(q - o + w) < t))
    else:
        od = 2 * big
        w = od / 2 * rng.uniform(.05, .9)
        a = [od, w]
        R, r = od / 2, od / 2 - w
        vol, area, c, slack = 4 / 3 * math.pi * (R ** 3 - r ** 3), 4 * math.pi * (R * R + r * r), (0, 0, 0), .15
        lo, hi = [-R] * 3, [R] * 3
        on = lambda P, t: (np.abs(np.linalg.norm(P, axis=1) - R) < t) | (np.abs(np.linalg.norm(P, axis=1) - r) < t)
    name = "cone" if k == "cone0" else k
    ps = ["abcd"[i] for i in range(len(a))]
    src = prog(["s: solid = %s(%s)" % (name, ", ".join(ps)), "print(volume(s), surface_area(s))", "print(centroid(s))", "emit s"], "solid", ", ".join("%s: float" % p for p in ps))
    import io, contextlib
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r_ = run(src, dict(zip(ps, a)))
    ctx.case((k, a))
    ctx.ev("solid")
    ctx.ev("solid:" + k)
    data = [src, a]
    if not ctx.check(r_.success, "solid:" + name, lambda: f"{name}{a} failed: {r_.error_message}", data):
        return
    s = r_.geometry
    T = mesh_ok(ctx, name, s, data)
    sz = max(a)
    P = T.reshape(-1, 3)
    v, ar = M.volume(T), M.area(T)
    ctx.check(on(P, 1e-6 * max(1, sz)).all(), "shape:" + name, lambda: f"{name}{a}: vertices off the surface, e.g. {P[~on(P, 1e-6 * max(1, sz))][0]}", data)
    if k in ("tube", "conic_tube", "spherical_shell"):
        ok = abs(v - vol) <= slack * vol if slack else 0
        # both walls are inscribed: bound by the outer and inner solids' deficits
        ok = abs(v - vol) <= .06 * (vol if k != "spherical_shell" else 4 / 3 * math.pi * R ** 3) + (.06 * math.pi * R * R * a[-1] if k == "tube" else .06 * fr(R0, R1) if k == "conic_tube" else 0)
    else:
        ok = vol * (1 - slack) - 1e-9 * vol <= v <= vol * (1 + 1e-6)
    ctx.check(ok, "volume:" + name, lambda: f"{name}{a}: volume {v}, exact {vol}", data)
    if area:
        ctx.check(area * (1 - max(slack, 1e-6) - 1e-9) <= ar <= area * (1 + 1e-6), "area:" + name, lambda: f"{name}{a}: area {ar}, exact {area}", data)
    if lo is not None:
        b0, b1 = M.box(T)
        t = 1e-6 * max(1, sz)
        wd = np.array(hi) - np.array(lo)
        fr_ = .06 if slack > 1e-6 else 1e-9
        ctx.check((b0 >= np.array(lo) - t).all() and (b1 <= np.array(hi) + t).all() and (b0 <= np.array(lo) + fr_ * wd + t).all() and (b1 >= np.array(hi) - fr_ * wd - t).all(),
                  "extent:" + name, lambda: f"{name}{a}: extent {b0} {b1}, expected {lo} {hi}", data)
    num = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", buf.getvalue())]
    if ctx.check(len(num) >= 5, "query", lambda: f"volume/surface_area/centroid printed {buf.getvalue()!r}", data):
        ctx.check(close(num[0], v, 1e-7, v), "query:volume", lambda: f"volume() {num[0]}, mesh {v}", data)
        ctx.check(close(num[1], ar, 1e-7), "query:surface_area", lambda: f"surface_area() {num[1]}, mesh {ar}", data)
        cm = mesh_centroid(T)
        ctx.check(np.abs(np.array(num[2:5]) - cm).max() <= 1e-6 * max(1, sz), "query:centroid", lambda: f"centroid() {num[2:5]}, mesh {cm}", data)
        if c is not None:
            ctx.check(np.abs(cm - np.array(c)).max() <= .03 * max(a), "centroid:" + name, lambda: f"{name}{a}: centroid {cm}, exact {c}", data)


def mesh_centroid(T):
    o = T.reshape(-1, 3).mean(0)
    A = T - o
    d = np.einsum("ij,ij->i", A[:, 0], np.cross(A[:, 1], A[:, 2]))
    return o + (A.sum(1) / 4 * d[:, None]).sum(0) / d.sum()


# ---------------------------------------------------------------- transforms
def Rm(axis, deg):
    x, y, z = np.array(axis, float) / np.linalg.norm(axis)
    t = math.radians(deg)
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    A = np.eye(4)
    A[:3, :3] = np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K
    return A


def Tm(v):
    A = np.eye(4)
    A[:3, 3] = v
    return A


def xf(rng):
    """(expression, matrix) of a random transform value"""
    k = rng.choice(("t", "r", "s", "u", "2", "m", "y", "i"))
    v = [fx(rng, -9, 9) for _ in range(3)]
    if k == "t":
        return "translate_xform(vector(%s))" % ", ".join(map(lit, v)), Tm(v)
    if k == "r":
        ax = rng.choice(((0, 0, 1), (1, 0, 0), (0, 1, 0), tuple(round(rng.uniform(-1, 1), 2) + .001 for _ in range(3)), (0, 0, -2)))
        an = rng.choice((90, -90, 45, 180, fx(rng, -360, 360)))
        return "rotate_xform(vector(%s), %s)" % (", ".join(lit(float(x)) for x in ax), lit(float(an))), Rm(ax, an)
    if k == "s":
        v = [fx(rng, .4, 3) for _ in range(3)]
        return "scale_xform(vector(%s))" % ", ".join(map(lit, v)), np.diag(v + [1])
    if k == "u":
        f = fx(rng, .4, 3)
        return "scale_uniform(%s)" % lit(f), np.diag([f, f, f, 1])
    if k == "2":
        an = fx(rng, -360, 360)
        return "rotate_2d(%s)" % lit(an), Rm((0, 0, 1), an)
    if k == "m":
        an = rng.uniform(0, 6.3)
        x, y = math.cos(an) * 2, math.sin(an) * 2
        c, s = math.cos(2 * an), math.sin(2 * an)
        return "mirror_2d(vector2d(%s, %s))" % (lit(x), lit(y)), np.array([[c, s, 0, 0], [s, -c, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1.]])
    if k == "y":
        return "mirror_y()", np.diag([-1., 1, 1, 1])
    return "identity_transform()", np.eye(4)


def step(rng, e):
    """(expression applied to solid e, matrix)"""
    k = rng.choice(("translate", "rotate", "scale", "mirror", "apply", "apply"))
    v = [fx(rng, -9, 9) for _ in range(3)]
    if k == "translate":
        return "translate(%s, %s)" % (e, ", ".join(map(lit, v))), Tm(v)
    if k == "rotate":
        v = [rng.choice((0.0, 90.0, -30.0, fx(rng, -360, 360))) for _ in range(3)]
        return "rotate(%s, %s)" % (e, ", ".join(map(lit, v))), Rm((0, 0, 1), v[2]) @ Rm((0, 1, 0), v[1]) @ Rm((1, 0, 0), v[0])
    if k == "scale":
        v = [fx(rng, .4, 3) for _ in range(3)]
        return "scale(%s, %s)" % (e, ", ".join(map(lit, v))), np.diag(v + [1])
    if k == "mirror":
        i = rng.randrange(3)
        n = [0.0] * 3
        n[i] = rng.choice((1.0, -1.0, 2.5))
        d = [1.] * 4
        d[i] = -1.
        return "mirror(%s, vector(%s))" % (e, ", ".join(map(lit, n))), np.diag(d)
    x, m = xf(rng)
    return "apply(%s, %s)" % (x, e), m


BASE = ["box(2, 3, 4)", "cone(2, 1, 3)", "translate(box(1, 2, 1), 4, 0, 1)", "cylinder(1.5, 2)"]


def g_xform(ctx, rng):
    base = rng.choice(BASE)
    body = ["s0: solid = " + base]
    Mx = np.eye(4)
    n = rng.randint(1, 4)
    for i in range(n):
        e, m = step(rng, "s%d" % i)
        body.append("s%d: solid = %s" % (i + 1, e))
        Mx = m @ Mx
    src = prog(body + ["emit [s0, s%d]" % n], "list<solid>")
    ctx.case(src)
    ctx.ev("xform")
    r = run(src)
    if not ctx.check(r.success, "xform", lambda: f"failed: {r.error_message}", src):
        return
    ref = run(prog(["emit " + base], "solid")).geometry
    a, b = r.geometry
    P0, P1, Q = usedv(ref), usedv(a), usedv(b)
    ctx.check(P0.shape == P1.shape and np.array_equal(P0, P1), "xform-argument", "the solid a transform was applied to changed", src)
    want = P0 @ Mx[:3, :3].T + Mx[:3, 3]
    sc = max(1, np.abs(want).max())
    # vertex order may legitimately differ after mirroring: compare as sets of points
    ok = Q.shape == want.shape
    if ok:
        from scipy.spatial import cKDTree
        ok = max(cKDTree(Q).query(want)[0].max(), cKDTree(want).query(Q)[0].max()) <= 1e-6 * sc
    ctx.check(ok, "xform", lambda: "the transformed solid is not where the transforms put it", src)
    TQ = M.tris(b)
    d = abs(np.linalg.det(Mx[:3, :3]))
    v0, v1 = M.volume(M.tris(ref)), M.volume(TQ)
    ctx.check(close(abs(v1), v0 * d, 1e-6), "xform-volume", lambda: f"volume {v1}, expected {v0 * d}", src)
    # points and vectors through the same kind of transforms
    chain, Mp, e = [], np.eye(4), "p"
    for i in range(rng.randint(1, 3)):
        x, m = xf(rng)
        chain.append(x)
        Mp = m @ Mp
    p = [fx(rng, -20, 20) for _ in range(3)]
    q = [fx(rng, -20, 20) for _ in range(3)]
    for x in chain:
        e = "apply_point(%s, %s)" % (x, e)
    ev = "v"
    for x in chain:
        ev = "apply_vector(%s, %s)" % (x, ev)
    src = prog(["p: point = point(%s)" % ", ".join(map(lit, p)), "emit " + e], "point")
    r = run(src)
    ctx.ev("point")
    w = Mp @ np.array(p + [1])
    ctx.check(r.success and np.abs(np.array(r.geometry[:3]) - w[:3]).max() < 1e-8 * max(1, np.abs(w).max()), "apply_point", lambda: f"{r.geometry} {r.error_message}, expected {w}", src)
    src = prog(["v: vector3d = vector(%s)" % ", ".join(map(lit, q)), "emit " + ev], "vector3d")
    r = run(src)
    w = Mp[:3, :3] @ np.array(q)
    ctx.check(r.success and np.abs(np.array(r.geometry[:3]) - w).max() < 1e-8 * max(1, np.abs(w).max()), "apply_vector", lambda: f"{r.geometry} {r.error_message}, expected {w}", src)
    src = prog(["emit distance(point(%s), point(%s), %s)" % (", ".join(map(lit, p)), ", ".join(map(lit, q)), lit(rng.uniform(0, 1)))], "float")
    r = run(src)
    w = math.dist(p, q)
    ctx.check(r.success and close(r.geometry, w), "distance", lambda: f"{r.geometry}, expected {w}", src)


# ---------------------------------------------------------------- regions
def shoelace(P):
    return abs(sum(P[i - 1][0] * P[i][1] - P[i][0] * P[i - 1][1] for i in range(len(P)))) / 2


def plen(P):
    return sum(math.dist(P[i - 1], P[i]) for i in range(len(P)))


def region(rng, c=None, R=None, holes=True):
    """(expression, area, perimeter)"""
    k = rng.choice(("rect", "reg", "poly", "disk", "arcs", "spline") + (("holes", "holes") if holes else ()))
    c = c or (fx(rng, -9, 9), fx(rng, -9, 9))
    R = R or fx(rng, .5, 9)
    if k == "rect":
        w, h = R * rng.uniform(.5, 1.4), R * rng.uniform(.5, 1.4)
        if rng.random() < .3 and holes:
            return "rectangle(%s, %s)" % (lit(w), lit(h)), w * h, 2 * (w + h)
        return "rectangle(%s, %s, point2d(%s, %s))" % (lit(w), lit(h), lit(c[0]), lit(c[1])), w * h, 2 * (w + h)
    if k == "reg":
        n = rng.randint(3, 12)
        return "regular_polygon(%d, %s, point2d(%s, %s))" % (n, lit(R), lit(c[0]), lit(c[1])), n * R * R * math.sin(2 * math.pi / n) / 2, 2 * n * R * math.sin(math.pi / n)
    if k == "poly":
        n = rng.randint(3, 9)
        an = sorted(2 * math.pi * (i + rng.uniform(.1, .9)) / n for i in range(n))
        P = [(c[0] + R * q * math.cos(t), c[1] + R * q * math.sin(t)) for t in an for q in [rng.uniform(.5, 1)]]
        if rng.random() < .5:
            P.reverse()
        return "polygon([%s])" % ", ".join("point(%s, %s)" % (lit(x), lit(y)) for x, y in P), shoelace(P), plen(P)
    if k == "disk":
        n = rng.choice((None, rng.randint(3, 40)))
        m = n or 64
        return "disk(point(%s, %s), %s%s)" % (lit(c[0]), lit(c[1]), lit(R), ", %d" % n if n else ""), m * R * R * math.sin(2 * math.pi / m) / 2, 2 * m * R * math.sin(math.pi / m)
    if k == "arcs":
        # circular segment: an arc closed by its chord
        s, sw = rng.uniform(0, 360), rng.uniform(20, 340)
        t = math.radians(sw)
        return ("close_path(make_path2d([arc(point(%s, %s), %s, %s, %s)]))" % (lit(c[0]), lit(c[1]), lit(R), lit(s), lit(s + sw)),
                R * R * (t - math.sin(t)) / 2, R * t + 2 * R * math.sin(t / 2))
    if k == "spline":
        n = rng.randint(4, 8)
        P = [(c[0] + R * math.cos(2 * math.pi * i / n), c[1] + R * math.sin(2 * math.pi * i / n)) for i in range(n)]
        # polygon through the control points bounds it from inside, the circumscribed circle (2%) from outside
        e = "region_from_spline(catmullrom([%s], true))" % ", ".join("point(%s, %s)" % (lit(x), lit(y)) for x, y in P)
        return e, (shoelace(P) * .99, math.pi * R * R * 1.03), (plen(P) * .99, 2 * math.pi * R * 1.03)
    e, A, L = region(rng, c, R, holes=False)
    if isinstance(A, tuple) or "arc(" in e or "polygon([" in e:
        e, A, L = "rectangle(%s, %s, point2d(%s, %s))" % (lit(2 * R), lit(2 * R), lit(c[0]), lit(c[1])), 4 * R * R, 8 * R
        r0 = R
    else:
        r0 = R * .2
    n = rng.randint(1, 3)
    hs = []
    for i in range(n):
        t = 2 * math.pi * i / n
        r = r0 * .25 * rng.uniform(.5, 1)
        hc = (c[0] + r0 * .5 * math.cos(t), c[1] + r0 * .5 * math.sin(t)) if "point" in e else (r0 * .5 * math.cos(t) * .5, r0 * .5 * math.sin(t) * .5)
        m = rng.randint(3, 12)
        hs.append(("regular_polygon(%d, %s, point2d(%s, %s))" % (m, lit(r), lit(hc[0]), lit(hc[1])), m * r * r * math.sin(2 * math.pi / m) / 2, 2 * m * r * math.sin(math.pi / m)))
    if rng.random() < .5:
        x = "difference2d_all(%s, [%s])" % (e, ", ".join(h[0] for h in hs))
    else:
        x = e
        for h in hs:
            x = "difference2d(%s, %s)" % (x, h[0])
    return x, A - sum(h[1] for h in hs), L + sum(h[2] for h in hs)


def g_region(ctx, rng):
    e, A, L = region(rng)
    src = prog(["r: region2d = " + e, "emit [area(r), perimeter(r)]"], "list<float>")
    ctx.case(src)
    ctx.ev("region")
    ctx.ev("region:" + e.split("(")[0])
    r = run(src)
    if not ctx.check(r.success, "region:" + e.split("(")[0], lambda: f"failed: {r.error_message}", src):
        return
    for got, want, nm in zip(r.geometry, (A, L), ("area", "perimeter")):
        ok = want[0] <= got <= want[1] if isinstance(want, tuple) else close(got, want, 1e-6)
        ctx.check(ok, "region-" + nm + ":" + e.split("(")[0], lambda: f"{nm} {got}, expected {want}", src)


# ---------------------------------------------------------------- curves
def cpt(c):
    return "point(%s)" % ", ".join(lit(x) for x in c)


def debezier(P, t):
    P = [np.array(p, float) for p in P]
    while len(P) > 1:
        P = [a * (1 - t) + b * t for a, b in zip(P, P[1:])]
    return P[0]


def nurbs_ref(P, W, deg, t):
    n = len(P)
    kn = [0.0] * (deg + 1) + [(i) / (n - deg) for i in range(1, n - deg)] + [1.0] * (deg + 1)
    k = deg
    while k < n - 1 and t >= kn[k + 1]:
        k += 1
    d = [np.array([*(w * x for x in p), w]) for p, w in zip(P[k - deg:k + 1], W[k - deg:k + 1])]
    for r in range(1, deg + 1):
        for j in range(deg, r - 1, -1):
            i = j + k - deg
            den = kn[i + deg - r + 1] - kn[i]
            al = 0 if den == 0 else (t - kn[i]) / den
            d[j] = (1 - al) * d[j - 1] + al * d[j]
    return d[deg][:3] / d[deg][3]


def curve(rng):
    """(expression, f(t) or None, length or None (numeric from f), knots where f is checked)"""
    k = rng.choice(("line", "arc", "circle", "ellipse", "bezier", "nurbs", "catmullrom"))
    p = lambda: [fx(rng, -9, 9) for _ in range(3)]
    q = lambda: [fx(rng, -9, 9) for _ in range(2)] + [0.0]
    if k == "line":
        a, b = np.array(p()), np.array(p())
        return k, "line(%s, %s)" % (cpt(a), cpt(b)), lambda t: a + (b - a) * t, 1e-9
    if k in ("arc", "circle"):
        c, r = np.array(q()), fx(rng, .5, 9)
        s, w = (0.0, 360.0) if k == "circle" else (fx(rng, -180, 180), fx(rng, 5, 350))
        e = "circle(%s, %s)" % (cpt(c), lit(r)) if k == "circle" else "arc(%s, %s, %s, %s)" % (cpt(c), lit(r), lit(s), lit(s + w))
        return k, e, lambda t: c + r * np.array([math.cos(math.radians(s + w * t)), math.sin(math.radians(s + w * t)), 0]), 1e-9
    if k == "ellipse":
        c, a = np.array(q()), fx(rng, 2, 9)
        b = a * rng.uniform(.2, 1)
        rot, s, w = fx(rng, -180, 180), fx(rng, 0, 180), fx(rng, 5, 179)
        n = rng.choice((0, 1, 3))
        if n < 3:
            s, w = 0.0, 360.0
        if n < 1:
            rot = 0.0
        R = Rm((0, 0, 1), rot)[:3, :3]
        ex = ["%s" % cpt(c), lit(a), lit(b)] + [lit(rot), lit(s), lit(s + w)][:n]
        return k, "ellipse(%s)" % ", ".join(ex), lambda t: c + R @ np.array([a * math.cos(math.radians(s + w * t)), b * math.sin(math.radians(s + w * t)), 0]), 1e-3
    n = rng.randint(2, 6)
    if k == "bezier":
        P = [p() for _ in range(n)]
        return k, "bezier([%s])" % ", ".join(map(cpt, P)), lambda t: debezier(P, t), 1e-3
    P = [p() for _ in range(rng.randint(4, 8))]
    ps = "[%s]" % ", ".join(map(cpt, P))
    if k == "nurbs":
        j = rng.choice((0, 1, 2))
        W = [1.0] * len(P) if j < 1 else [fx(rng, .4, 3) for _ in P]
        deg = 3 if j < 2 else rng.randint(1, min(4, len(P) - 1))
        ex = [ps] + (["[%s]" % ", ".join(map(lit, W))] if j else []) + ([str(deg)] if j == 2 else [])
        return k, "nurbs(%s)" % ", ".join(ex), lambda t: nurbs_ref(P, W, deg, t), (5e-3 if deg > 1 else .06)
    cl = rng.random() < .5
    P2 = P + [P[0]] if cl else P
    f = lambda t: None
    return k, "catmullrom(%s%s)" % (ps, ", true" if cl else ""), ("knots", P2), None


def g_curve(ctx, rng):
    k, e, f, tl = curve(rng)
    ctx.ev("curve")
    ctx.ev("curve:" + k)
    ts = [0.0, 1.0, .5] + [rng.random() for _ in range(3)]
    if k == "catmullrom":
        P = f[1]
        m = len(P) - 1
        ts = [i / m for i in range(m + 1)]
    n = rng.randint(2, 9)
    src = prog(["c: %s = %s" % ({"line": "line_segment"}.get(k, k), e), "emit concat([sample_curve(c, t) for t in ts], sample_curve_n(c, n))"], "list<point>", "ts: list<float>, n: int")
    ctx.case(e)
    r = run(src, {"ts": ts, "n": n})
    if not ctx.check(r.success and len(r.geometry) == len(ts) + n, "curve:" + k, lambda: f"failed: {r.error_message}", [src, ts, n]):
        return
    got = [np.array(p[:3], float) for p in r.geometry]
    if k == "catmullrom":
        d = max(np.abs(g - np.array(q)).max() for g, q in zip(got, P))
        ctx.check(d < 1e-6, "sample_curve:" + k, lambda: f"misses its control points by {d}", [src, ts])
        ctx.check(np.abs(got[len(ts)] - np.array(P[0])).max() < 1e-6 and np.abs(got[-1] - np.array(P[-1])).max() < 1e-6, "sample_curve_n:" + k, "ends are not the ends of the curve", src)
    else:
        allt = ts + [i / (n - 1) for i in range(n)]
        d = max(np.abs(g - f(t)).max() for g, t in zip(got, allt))
        ctx.check(d < 1e-7 * 20, "sample_curve:" + k, lambda: f"off the curve by {d}", [src, ts])
    src = prog(["emit curve_length(%s)" % e], "float")
    r = run(src)
    if not ctx.check(r.success, "curve_length:" + k, lambda: f"failed: {r.error_message}", src):
        return
    if k == "catmullrom":
        lo = sum(math.dist(a, b) for a, b in zip(P, P[1:]))
        ctx.check(lo - 1e-6 <= r.geometry <= 2.2 * lo, "curve_length:" + k, lambda: f"{r.geometry}, control polygon {lo}", src)
    else:
        N = 4000
        pts = np.array([f(i / N) for i in range(N + 1)])
        L = np.linalg.norm(np.diff(pts, axis=0), axis=1).sum()
        ctx.check(abs(r.geometry - L) <= max(tl, 2e-6) * max(L, 1e-3), "curve_length:" + k, lambda: f"{r.geometry}, expected {L}", src)


def g_path3d(ctx, rng):
    n = rng.randint(1, 5)
    cur = np.array([fx(rng, -9, 9) for _ in range(3)])
    segs, exprs, L = [], [], 0.0
    for _ in range(n):
        if rng.random() < .5:
            b = cur + np.array([rng.uniform(-5, 5) for _ in range(3)])
            segs.append((lambda a, b: lambda t: a + (b - a) * t)(cur, b))
            exprs.append("path3d_line(%s, %s)" % (cpt(cur), cpt(b)))
            L += np.linalg.norm(b - cur)
        else:
            # arc about centre c in the plane of two orthonormal directions
            u = np.array([rng.gauss(0, 1) for _ in range(3)])
            u /= np.linalg.norm(u)
            w = np.cross(u, [rng.gauss(0, 1) for _ in range(3)])
            w /= np.linalg.norm(w)
            r, auto, flip = rng.uniform(.5, 6), rng.random() < .5, rng.random() < .5
            ang = math.radians(rng.uniform(10, 170))
            c = cur - r * u
            b = c + r * (u * math.cos(ang) + w * math.sin(ang))
            nn = np.cross(u, w)
            if flip:
                ang = ang - 2 * math.pi
                nn = -nn
            segs.append((lambda c, r, u, w, a: lambda t: c + r * (u * math.cos(a * t) + w * math.sin(a * t)))(c, r, u, w, ang))
            exprs.append("path3d_arc_auto(%s, %s, %s, %s)" % (cpt(c), cpt(cur), cpt(b), lit(flip)) if auto else
                         "path3d_arc(%s, %s, %s, vector(%s))" % (cpt(c), cpt(cur), cpt(b), ", ".join(lit(float(x)) for x in nn * rng.choice((1, 1, 3)))))
            L += r * abs(ang)
        cur = b
    ts = [0.0, 1.0] + [rng.random() for _ in range(5)] + [1.7, -.4]
    src = prog(["p: path3d = make_path3d(%s)" % ", ".join(exprs), "emit [path3d_eval(p, t) for t in ts]"], "list<point3d>", "ts: list<float>")
    ctx.case(src)
    ctx.ev("path3d")
    r = run(src, {"ts": ts})
    if ctx.check(r.success and len(r.geometry) == len(ts), "path3d_eval", lambda: f"failed: {r.error_message}", src):
        for t, g in zip(ts, r.geometry):
            t = min(1, max(0, t))
            i = min(int(t * n), n - 1)
            w = segs[i](t * n - i)
            if abs(t * n - round(t * n)) < 1e-9:
                continue
            ctx.check(np.abs(np.array(g[:3]) - w).max() < 1e-6, "path3d_eval", lambda: f"at {t}: {g}, expected {w}", [src, ts])
    for t, w in ((0.0, segs[0](0)), (1.0, segs[-1](1))):
        g = r.geometry[0 if t == 0 else 1] if r.success else [9e9] * 3
        ctx.check(np.abs(np.array(g[:3]) - w).max() < 1e-6, "path3d_eval", lambda: f"end {t}: {g}, expected {w}", [src, ts])
    r = run(prog(["emit path3d_length(make_path3d(%s))" % ", ".join(exprs)], "float"))
    ctx.check(r.success and close(r.geometry, L, 1e-6), "path3d_length", lambda: f"{r.geometry} {r.error_message}, expected {L}", src)


def g_pattern(ctx, rng):
    n = rng.randint(1, 7)
    ctx.ev("pattern")
    k = rng.choice(("radial", "linear", "compound", "radial2", "linear2"))
    base = rng.choice(BASE)
    if k == "compound":
        n = rng.randint(2, 5)
        body = ["xs: list<solid> = [%s]" % ", ".join("translate(%s, %d, 0, 0)" % (rng.choice(BASE), 20 * i) for i in range(n))]
        src = prog(body + ["emit compound(%s)" % ", ".join("xs[%d]" % i for i in range(n))], "solid")
        parts = run(prog(body + ["emit xs"], "list<solid>")).geometry
        r = run(src)
        ctx.case(src)
        if ctx.check(r.success, "compound", lambda: r.error_message, src):
            v, w = M.volume(M.tris(r.geometry)), sum(M.volume(M.tris(p)) for p in parts)
            ctx.check(close(v, w, 1e-6), "compound", lambda: f"volume {v}, parts {w}", src)
            b0, b1 = M.box(M.tris(r.geometry))
            P = np.concatenate([usedv(p) for p in parts])
            ctx.check(np.abs(b0 - P.min(0)).max() < 1e-6 and np.abs(b1 - P.max(0)).max() < 1e-6, "compound", "bodies moved or lost", src)
        return
    if k.startswith("radial"):
        ax = (0.0, 0.0, 1.0) if k == "radial2" else rng.choice(((0., 0., 1.), (1., 0., 0.), (0., 1., 0.), (1., 1., 0.)))
        c = [fx(rng, -9, 9) for _ in range(2)] + [0.0 if k == "radial2" else fx(rng, -9, 9)]
        mats = [Tm(c) @ Rm(ax, 360 * i / n) @ Tm([-x for x in c]) for i in range(n)]
        tail = "radial_pattern(b, %d, vector(%s), %s)" % (n, ", ".join(map(lit, ax)), cpt(c))
    else:
        v = [fx(rng, -9, 9) for _ in range(2)] + [0.0 if k == "linear2" else fx(rng, -9, 9)]
        mats = [Tm([i * x for x in v]) for i in range(n)]
        tail = "linear_pattern(b, %d, vector(%s))" % (n, ", ".join(map(lit, v)))
    two = k.endswith("2")
    if two:
        base = rng.choice(("rectangle(2, 1, point2d(3, 1))", "regular_polygon(5, 2, point2d(1, 0))"))
    ty = "region2d" if two else "solid"
    src = prog(["b: %s = %s" % (ty, base), "xs: list<%s> = %s" % (ty, tail), "print(len(xs))", "emit concat([b], xs)"], "list<%s>" % ty)
    ctx.case(src)
    r = run(src)
    if not ctx.check(r.success and len(r.geometry) == n + 1, "pattern", lambda: f"failed: {r.error_message} or {len(r.geometry or [])} items for {n}", src):
        return
    pts = (lambda s: np.array([p[:3] for seg in s for p in seg], float)) if two else usedv
    ref = run(prog(["emit " + base], ty)).geometry
    P = pts(ref)
    ctx.check(np.array_equal(P, pts(r.geometry[0])), "pattern-argument", "the pattern changed its argument", src)
    from scipy.spatial import cKDTree
    for m, s in zip(mats, r.geometry[1:]):
        W, Q = P @ m[:3, :3].T + m[:3, 3], pts(s)
        ctx.check(W.shape == Q.shape and cKDTree(Q).query(W)[0].max() < 1e-6 and cKDTree(W).query(Q)[0].max() < 1e-6, "pattern", "a copy is not at its place", src)


# ---------------------------------------------------------------- runs
def strip(x):
    """geometry without identities (uuids, caches)"""
    if isinstance(x, (list, tuple)):
        return [strip(v) for v in x]
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("entityId", "id", "_octree", "timestamp")}
    if isinstance(x, float):
        return repr(x)
    return x if isinstance(x, (str, int, bool, type(None))) else repr(type(x))


def flat(x):
    """the coordinates of a result, without metadata"""
    if isinstance(x, list):
        return [flat(v) for v in x if not isinstance(v, dict)]
    return repr(float(x)) if isinstance(x, (int, float)) else x


def some_program(rng):
    k = rng.random()
    body = ["s0: solid = " + rng.choice(BASE + ["sphere(2)", "tube(4, 0.5, 3)"])]
    n = rng.randint(0, 3)
    for i in range(n):
        body.append("s%d: solid = %s" % (i + 1, step(rng, "s%d" % i)[0]))
    if k < .35:
        return prog(body + ["emit s%d" % n], "solid"), "solid"
    if k < .6:
        return prog(body + ["emit [s0, s%d]" % n], "list<solid>"), "solids"
    if k < .8:
        e, _, _ = region(rng)
        return prog(["emit " + e], "region2d"), "region"
    body += ["emit compound(s0, translate(s%d, 50, 0, 0))" % n]
    return prog(body, "solid"), "solid"


def vandal(x, depth=0):
    """scribble over every mutable part of a result"""
    if isinstance(x, list):
        for v in list(x):
            if isinstance(v, (list, dict)) and depth < 8:
                vandal(v, depth + 1)
        for i, v in enumerate(x):
            if isinstance(v, float):
                x[i] = 1e6
        x.append("scribble")
    elif isinstance(x, dict):
        for v in list(x.values()):
            vandal(v, depth + 1)
        x["scribble"] = 1


def g_rerun(ctx, rng):
    src, _ = some_program(rng)
    other, _ = some_program(rng)
    ctx.case(src)
    ctx.ev("rerun")
    a = run(src)
    if not ctx.check(a.success, "rerun", lambda: a.error_message, src):
        return
    sa = strip(a.geometry)
    b = run(other)
    b2 = run(prog(["emit 1 / 0"], "float"))
    ctx.check(strip(a.geometry) == sa, "isolation", "a later run changed an earlier result", [src, other])
    vandal(a.geometry)
    c = run(src)
    ctx.check(c.success and strip(c.geometry) == sa, "determinism", "running the program again gave another result", [src, other])
    if b.success:
        sb = strip(b.geometry)
        vandal(c.geometry)
        ctx.check(strip(b.geometry) == sb, "isolation", "results of two programs share state", [src, other])
    # module compiled once, run twice
    pc = a.provenance, c.provenance
    ctx.check(pc[0].source_signature == pc[1].source_signature and pc[0].parameters == pc[1].parameters, "determinism", "provenance differs between runs", src)


# ---------------------------------------------------------------- provenance
def g_prov(ctx, rng):
    ctx.ev("provenance")
    params = {"a": rng.choice((rng.randint(-5, 5), fx(rng, -9, 9))), "n": rng.randint(0, 99), "name": rng.choice(("x", "é—ü", "a b\"c")), "on": rng.random() < .5,
              "ls": [fx(rng, -3, 3) for _ in range(rng.randint(0, 3))]}
    mod = rng.choice(("parts", "a_b", "M1"))
    cmd = rng.choice(("MAKE", "BUILD_IT", "X"))
    src = "module %s\n\n# %s\ncommand %s(a: float, n: int, name: string, on: bool, ls: list<float>, d: float = 2.5) -> float:\n    emit a + n + d\n" % (mod, rng.choice(("", "note é", "v%d" % rng.randint(0, 99))), cmd)
    r = D.compile_and_run(src, cmd, dict(params))
    ctx.case((mod, cmd, params))
    if not ctx.check(r.success and r.provenance is not None, "provenance", lambda: f"failed: {r.error_message}", src):
        return
    p = r.provenance
    ctx.check(p.module_name == mod and p.command_name == cmd, "provenance", lambda: f"records {p.module_name}.{p.command_name}", src)
    ctx.check({k: p.parameters.get(k) for k in params} == params, "provenance-params", lambda: f"records {p.parameters}, given {params}", src)
    h = lambda t: "sha256:" + hashlib.sha256(t.encode()).hexdigest()
    norm = src.strip().replace("\r\n", "\n").replace("\r", "\n")
    ctx.check(p.source_signature == h(norm), "signature", lambda: f"signature {p.source_signature}", src)
    for same in (src.replace("\n", "\r\n"), "\n\n" + src + "\n\n", src.rstrip("\n"), src.replace("\n", "\r")):
        ctx.check(V.compute_source_signature(same) == p.source_signature and V.verify_source_signature(same, p.source_signature), "signature", "line endings or outer blanks change the signature", [src, same])
    i = rng.randrange(len(norm))
    ch = rng.choice([c for c in "abcXYZ019 \n+-#" if c != norm[i]])
    diff = norm[:i] + ch + norm[i + 1:]
    if diff.strip() != norm:
        ctx.check(V.compute_source_signature(diff) != p.source_signature and not V.verify_source_signature(diff, p.source_signature), "signature", f"a changed source keeps the signature (position {i})", [src, diff])
    for d in (p.to_dict(), json.loads(p.to_json())):
        q = V.Provenance.from_dict(d)
        ctx.check(q == p, "provenance-roundtrip", lambda: f"{q} != {p}", src)
    # explicit record
    ex = {"k%d" % j: rng.choice((1, "x", [1, 2], None)) for j in range(rng.randint(0, 3))}
    pa = {"arr": np.array([1., 2.]), "t": (1, 2), "f": 1.5, "s": "txt", "d": {"z": 1}}
    q = V.create_provenance(mod, cmd, pa, source=src, version="1.2.%d" % rng.randint(0, 9), **ex)
    ctx.check(q.parameters == {"arr": [1., 2.], "t": [1, 2], "f": 1.5, "s": "txt", "d": {"z": 1}} and q.extra == ex and V.Provenance.from_dict(json.loads(q.to_json())) == q, "provenance-create", lambda: f"{q}", None)


def g_package(ctx, rng):
    tmp = tempfile.mkdtemp(prefix="c22-")
    try:
        src, kind = some_program(rng)
        nl = rng.choice(("\n", "\n", "\r\n")) if kind != "region" else "\n"
        full = src.replace("module chk", "module chk\n\n# é note").replace("MAIN()", "MAIN(w: float, name: string = \"n\")")
        par = {"w": fx(rng, 1, 9)}
        bad = rng.random() < .3
        if bad:
            full = full.replace("\n    emit", rng.choice(("\n    require w < 0.0\n    emit", "\n    require 1 / 0 > 1\n    emit")))
        t = os.path.join(tmp, "p.ycpkg")
        ctx.case(full)
        ctx.ev("package")
        r = PK.package_from_dsl(full, "MAIN", par, t, name="part", version="1.0.0", author="A", description="d é")
        if bad:
            ctx.check(not r.success and r.error_message and not os.path.exists(t), "package-failure", lambda: f"a failing program gave {r}, directory {os.path.exists(t)}", full)
            return
        if not ctx.check(r.success, "package", lambda: r.error_message, full):
            return
        ok, msgs = pkg.validate_package(t)
        ctx.check(ok, "package-valid", lambda: f"{msgs}", full)
        m = pkg.PackageManifest.load(t)
        ctx.check(m.data["name"] == "part" and m.data["version"] == "1.0.0" and m.data == r.manifest.data, "package-manifest", lambda: f"manifest on disk {m.data}", full)
        d = (m.data.get("generator") or {}).get("dsl") or {}
        ctx.check(d.get("module") == "chk" and d.get("command") == "MAIN" and d.get("parameters", {}).get("w") == par["w"] and d.get("source_signature") == V.compute_source_signature(full), "package-generator", lambda: f"{d}", full)
        at = [a for a in m.data.get("attachments", []) if a.get("id") == "dsl-source"]
        if ctx.check(len(at) == 1, "package-source", lambda: f"{m.data.get('attachments')}", full):
            raw = open(os.path.join(t, at[0]["path"]), "rb").read()
            ctx.check(raw.decode() == full and at[0]["hash"] == "sha256:" + hashlib.sha256(raw).hexdigest(), "package-source", "the attached source or its hash is not the program", full)
            q = D.compile_and_run(raw.decode(), d["command"], d["parameters"])
            ctx.check(q.success and flat(q.geometry) == flat(r.execution_result.geometry), "package-replay", "running the packaged source again gives another geometry", full)
        geo = pkg.load_geometry(m)
        ent = r.execution_result.geometry
        if kind == "solid":
            ctx.check(len(geo) == 1 and np.array_equal(usedv(geo[0]), usedv(ent)), "package-geometry", lambda: f"{len(geo)} entities", full)
        elif kind == "solids":
            ctx.check(len(geo) == 2 and all(np.array_equal(usedv(a), usedv(b)) for a, b in zip(geo, ent)), "package-geometry", lambda: f"{len(geo)} entities", full)
        # a second package must not replace the first without leave
        r2 = PK.package_from_dsl(full, "MAIN", par, t, name="other", version="2.0.0")
        ctx.check(not r2.success and pkg.PackageManifest.load(t).data["name"] == "part", "package-overwrite", "an existing package was replaced without overwrite=True", full)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- registry
def g_registry(ctx, rng):
    table = SYM.SymbolTable().get_all_builtins()
    reg = BI.get_builtin_registry() if hasattr(BI, "get_builtin_registry") else BI.BuiltinRegistry()
    have = set(reg._functions if hasattr(reg, "_functions") else reg.functions)
    api = INTRO.get_api_reference()
    json.loads(INTRO.get_api_as_json())
    ctx.check(set(api["functions"]) == set(table) == set(INTRO.list_functions()), "introspection", "the API reference does not list exactly the built-ins of the checker", None)
    ctx.check(INTRO.get_function_info("no_such_fn") is None and "Unknown" in INTRO.describe_function("no_such_fn"), "introspection", "an unknown function is described", None)
    for name, sig in table.items():
        ctx.ev("builtin")
        ctx.case(name)
        ctx.check(name in have, "missing-builtin:" + name, f"{name} is offered by the checker and the API reference but has no implementation", name)
        i = INTRO.get_function_info(name)
        ctx.check(i["name"] == name and [p["name"] for p in i["parameters"]] == [p[0] for p in sig.params] and i["return_type"] == getattr(sig.return_type, "name", str(sig.return_type))
                  and name in INTRO.describe_function(name) and i["signature"] in INTRO.describe_function(name) and i == api["functions"][name], "introspection", lambda: f"{i}", name)
        if name in have:
            rs = reg._functions[name].signature if hasattr(reg, "_functions") else reg.functions[name].signature
            a, b = getattr(sig.return_type, "name", str(sig.return_type)), getattr(rs.return_type, "name", str(rs.return_type))
            loose = {("point", "point3d"), ("vector", "vector3d"), ("split_solid", "")}
            ctx.check(a == b or (a, b) in loose or "unknown" in a, "return-type:" + name, f"{name}: checker says {a}, runtime {b}", name)


GROUPS = {"math": (g_math, 160, 6000), "solid": (g_solid, 160, 4000), "xform": (g_xform, 160, 5000), "region": (g_region, 240, 8000),
          "curve": (g_curve, 240, 8000), "path3d": (g_path3d, 160, 6000), "pattern": (g_pattern, 120, 3000), "rerun": (g_rerun, 80, 2500),
          "provenance": (g_prov, 160, 5000), "package": (g_package, 48, 1200), "registry": (g_registry, 1, 1)}

if __name__ == "__main__":
    vf.main(globals())
