import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import io, re, shutil, tempfile
import numpy as np
import vf

PROP = "C14"
LEVEL = "exploration"
META = dict(
    title="STEP export is well formed and holds exactly the mesh's faces",
    statement="write_step writes a well-formed ISO-10303-21 file: unique sequential entity ids, every reference resolves to an entity of the right kind, strings are escaped so any product name survives. Its faces are exactly the triangles of the surface or solid (coordinates to 6 decimals), in millimetres with the units declared, each with a planar surface whose normal agrees with the winding of its edge loop and an exact reference direction; every edge joins the right vertices along a unit direction with the right length. Faces that share an edge share one EDGE_CURVE; each connected component becomes one shell, a MANIFOLD_SOLID_BREP of a CLOSED_SHELL exactly when every edge is used twice, in which case the two uses have opposite senses. Export is deterministic, does not modify its input, refuses an object without triangles; write_step_analytic without OCC falls back to the same file or refuses. surface_watertight and is_closed_polygon report exactly the open or over-used edges and closedness.",
    over=["inputs"], q="for all surfaces, solids, names and targets",
    why="Tests look for keywords in files of a few boxes; a dangling reference, flipped edge or unshared vertex makes a file other CAD systems reject, and depends on the mesh.",
    files=["src/yapcad/io/step.py", "src/yapcad/geometry_checks.py", "src/yapcad/mesh.py"],
    mech=[("write_step, write_step_analytic", "src/yapcad/io/step.py"), ("surface_watertight, faces_oriented, is_closed_polygon", "src/yapcad/geometry_checks.py")],
    technique="offline checker over the exported file: independent Part-21 parser, reference/type checker and B-rep reconstruction compared with the numpy mesh oracle",
    note="Exploration. The faceted writer only (analytic STEP needs OCC). Vertices closer than 1e-5 are avoided.",
)
RULE = "random solids and surfaces (closed, open, several components), hostile product names, path and stream targets; distinct by mesh and name"
REQUIRE = {"files": 120, "occ": 20, "entities": 50000, "closed_shells": 60, "open_shells": 20, "watertight": 150, "names": 60, "overused": 15}


def init():
    global g, g3, gu, step, gc, M, gen3, TMP
    from yapcad import geom as g, geom3d as g3, geom3d_util as gu, geometry_checks as gc
    from yapcad.io import step
    import mesh3 as M, gen3
    TMP = tempfile.mkdtemp(prefix="c14")


def fini():
    shutil.rmtree(TMP, ignore_errors=True)


class Bad(Exception):
    pass


TOK = re.compile(r"\s*(?:(#\d+)|('(?:[^'\n]|'')*')|(\.[A-Z_]+\.)|([-+]?\d+\.?\d*(?:E[-+]?\d+)?)|([A-Z_][A-Z0-9_]*)|([(),;=*$]))")


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if not s[i:].strip():
                break
            raise Bad(f"bad token at {s[i:i+60]!r}")
        out.append(m.group().strip())
        i = m.end()
    return out


def args(t, i):
    """parse '( ... )' starting at t[i]; returns list, next index"""
    if t[i] != "(":
        raise Bad(f"expected ( got {t[i]}")
    i += 1
    out = []
    if t[i] == ")":
        return out, i + 1
    while True:
        x = t[i]
        if x == "(":
            v, i = args(t, i)
        elif re.match(r"[A-Z]", x) and t[i + 1] == "(":
            v, i = args(t, i + 1)
            v = (x, v)
        elif re.match(r"[#'.*$+\-\d]", x) or x[0].isdigit():
            v, i = x, i + 1
        else:
            raise Bad(f"unexpected {x}")
        out.append(v)
        if t[i] == ",":
            i += 1
        elif t[i] == ")":
            return out, i + 1
        else:
            raise Bad(f"expected , or ) got {t[i]}")


def unstring(s):
    s = s[1:-1].replace("''", "'")
    s = re.sub(r"\\X2\\((?:[0-9A-F]{4})+)\\X0\\", lambda m: bytes.fromhex(m.group(1)).decode("utf-16-be"), s)
    s = re.sub(r"\\X4\\((?:[0-9A-F]{8})+)\\X0\\", lambda m: bytes.fromhex(m.group(1)).decode("utf-32-be"), s)
    return s.replace("\\\\", "\\")


def parse(text):
    m = re.match(r"ISO-10303-21;\s*HEADER;(.*?)ENDSEC;\s*DATA;(.*)ENDSEC;\s*END-ISO-10303-21;\s*$", text, re.S)
    if not m:
        raise Bad("section structure")
    hdr, data = m.groups()
    H = {}
    t = tokens(hdr)
    i = 0
    while i < len(t):
        k = t[i]
        v, i = args(t, i + 1)
        if t[i] != ";":
            raise Bad("header ;")
        i += 1
        H[k] = v
    if list(H) != ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"]:
        raise Bad(f"header {list(H)}")
    E = {}
    t = tokens(data)
    i = 0
    while i < len(t):
        eid = t[i]
        if eid[0] != "#" or t[i + 1] != "=":
            raise Bad(f"entity at {t[i:i+4]}")
        if t[i + 2] == "(":     # complex instance
            j, parts = i + 3, {}
            while t[j] != ")":
                k = t[j]
                if not re.match(r"[A-Z]", k) or t[j + 1] != "(":
                    raise Bad(f"complex instance {eid}: {t[j:j+3]}")
                v, j = args(t, j + 1)
                parts[k] = v
            rec, i = ("&" + "+".join(sorted(parts)), parts), j + 1
        else:
            v, j = args(t, i + 3)
            rec, i = (t[i + 2], v), j
        if t[i] != ";":
            raise Bad("entity ;")
        i += 1
        n = int(eid[1:])
        if n in E:
            raise Bad(f"duplicate id #{n}")
        E[n] = rec
    if list(E) != list(range(1, len(E) + 1)):
        raise Bad("ids are not sequential")
    return H, E


def refs(x):
    if isinstance(x, str):
        if x[:1] == "#":
            yield int(x[1:])
    elif isinstance(x, dict):
        for v in x.values():
            yield from refs(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from refs(v)


KINDS = {   # argument kinds: entity type names
    "VERTEX_POINT": [None, "CARTESIAN_POINT"], "VECTOR": [None, "DIRECTION", None], "LINE": [None, "CARTESIAN_POINT", "VECTOR"],
    "EDGE_CURVE": [None, "VERTEX_POINT", "VERTEX_POINT", "LINE", None], "ORIENTED_EDGE": [None, None, None, "EDGE_CURVE", None],
    "EDGE_LOOP": [None, "ORIENTED_EDGE"], "FACE_OUTER_BOUND": [None, "EDGE_LOOP", None],
    "AXIS2_PLACEMENT_3D": [None, "CARTESIAN_POINT", "DIRECTION", "DIRECTION"], "PLANE": [None, "AXIS2_PLACEMENT_3D"],
    "ADVANCED_FACE": [None, "FACE_OUTER_BOUND", "PLANE", None], "CLOSED_SHELL": [None, "ADVANCED_FACE"], "OPEN_SHELL": [None, "ADVANCED_FACE"],
    "MANIFOLD_SOLID_BREP": [None, "CLOSED_SHELL"], "SHELL_BASED_SURFACE_MODEL": [None, "OPEN_SHELL"],
    "PRODUCT_CONTEXT": [None, "APPLICATION_CONTEXT", None], "PRODUCT": [None, None, None, "PRODUCT_CONTEXT"],
    "PRODUCT_DEFINITION_FORMATION": [None, None, "PRODUCT"], "PRODUCT_DEFINITION_CONTEXT": [None, "APPLICATION_CONTEXT", None],
    "PRODUCT_DEFINITION": [None, None, "PRODUCT_DEFINITION_FORMATION", "PRODUCT_DEFINITION_CONTEXT"],
    "PRODUCT_DEFINITION_SHAPE": [None, None, "PRODUCT_DEFINITION"],
    "SHAPE_DEFINITION_REPRESENTATION": ["PRODUCT_DEFINITION_SHAPE", "ADVANCED_BREP_SHAPE_REPRESENTATION"],
}


def brep(text, ctx=None):
    H, E = parse(text)
    for n, (k, a) in E.items():
        for r in refs(a):
            if r not in E:
                raise Bad(f"#{n} {k} refers to missing #{r}")
        want = KINDS.get(k)
        if want:
            if len(a) != len(want):
                raise Bad(f"#{n} {k} has {len(a)} arguments")
            for x, w in zip(a, want):
                rs = list(refs(x))
                if w is None and rs or w and (not rs or any(E[r][0] != w for r in rs)):
                    raise Bad(f"#{n} {k}: argument {x} should be {w}")
    pt = lambda r: np.array([float(x) for x in E[r][1][1]])
    vx = lambda r: int(E[r][1][1][1:])
    ref = lambda s: int(s[1:])
    faces = {}
    for n, (k, a) in E.items():
        if k == "EDGE_CURVE":
            p, q = pt(vx(ref(a[1]))), pt(vx(ref(a[2])))
            ln = E[ref(a[3])][1]
            d = pt(ref(E[ref(ln[2])][1][1]))
            L = float(E[ref(ln[2])][1][2])
            if ref(ln[1]) != vx(ref(a[1])):
                raise Bad(f"#{n}: line does not start at the edge's start vertex")
            # directions have 6 decimals, coordinates are rounded to 1e-6
            D = np.linalg.norm(q - p)
            if abs(L - D) > 3e-6 or np.abs(d * D - (q - p)).max() > 3e-6 + 1e-6 * D * 2 or a[4] != ".T.":
                raise Bad(f"#{n}: edge {p}->{q} but direction {d} length {L}")
        if k == "ADVANCED_FACE":
            if len(a[1]) != 1 or a[3] != ".T.":
                raise Bad(f"#{n}: bounds {a[1]} {a[3]}")
            fb = E[ref(a[1][0])][1]
            if fb[2] != ".T.":
                raise Bad("bound orientation")
            loop = E[ref(fb[1])][1][1]
            path = []
            for oe in loop:
                o = E[ref(oe)][1]
                ec = E[ref(o[3])][1]
                s, e = ref(ec[1]), ref(ec[2])
                path.append((s, e, ref(o[3]), o[4]) if o[4] == ".T." else (e, s, ref(o[3]), o[4]))
            for x, y in zip(path, path[1:] + path[:1]):
                if x[1] != y[0]:
                    raise Bad(f"#{n}: edge loop is not closed")
            ax = E[ref(E[ref(a[2])][1][1])][1]
            faces[n] = (np.array([pt(vx(x[0])) for x in path]), path, pt(ref(ax[1])), pt(ref(ax[2])), pt(ref(ax[3])))
    shells = []
    rep = [a for k, a in E.values() if k == "ADVANCED_BREP_SHAPE_REPRESENTATION"]
    if len(rep) != 1:
        raise Bad("one shape representation expected")
    for r in rep[0][1]:
        k, a = E[ref(r)]
        sh = a[1] if k == "MANIFOLD_SOLID_BREP" else a[1][0] if k == "SHELL_BASED_SURFACE_MODEL" else None
        if sh is None:
            raise Bad(f"unexpected item {k}")
        shells.append((k, E[ref(sh)][0], [ref(f) for f in E[ref(sh)][1][1]], unstring(a[0])))
    used = [f for s in shells for f in s[2]]
    if sorted(used) != sorted(faces):
        raise Bad("a face is in no shell or in several")
    prod = [a for k, a in E.values() if k == "PRODUCT"]
    return H, E, faces, shells, unstring(prod[0][0])


def comps(ids):
    """connected components over shared edges; list of lists of triangle indices"""
    by = {}
    for i, (a, b, c) in enumerate(ids):
        for e in ((a, b), (b, c), (c, a)):
            by.setdefault(tuple(sorted(e)), []).append(i)
    par = list(range(len(ids)))
    def f(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x
    for L in by.values():
        for x in L[1:]:
            par[f(x)] = f(L[0])
    out = {}
    for i in range(len(ids)):
        out.setdefault(f(i), []).append(i)
    closed = {r: True for r in out}
    for L in by.values():
        if len(L) != 2:
            closed[f(L[0])] = False
    return list(out.values()), [closed[r] for r in out]


NAMES = ["yapCAD", "bracket", "it's", "a''b", "back\\slash", "Zahnrad\u00e4", "\u6b6f\u8eca", "\U0001F6E0 tool", "x;y", "#12", "*/", "", "(A)", "tab\there", "trail'"]


def export(ctx, rng):
    k = rng.random()
    if k < .6:
        s = gen3.solid(rng)
    elif k < .85:
        s = gen3.surf(rng)
    else:       # several bodies in one solid
        a, b = gen3.solid(rng), gen3.solid(rng)
        d = rng.choice([0, 50])
        s = g3.solid(a[1] + g3.translatesolid(b, g.point(d or 40, 0, 0))[1], [], [])
    if rng.random() < .25:      # drop some faces: open meshes
        import copy
        s = copy.deepcopy(s)
        sf = s if s[0] == "surface" else rng.choice(s[1])
        for _ in range(rng.randint(1, 3)):
            if len(sf[3]) > 1:
                sf[3].pop(rng.randrange(len(sf[3])))
    if rng.random() < .2:       # edges used more than twice: touching bodies, fins, doubled faces
        import copy
        s = copy.deepcopy(s) if s[0] == "solid" and rng.random() < .3 else gu.prism(*[rng.randint(1, 3) for _ in range(3)], g.point(0, 0, 0))
        k = rng.randrange(3)
        lo, hi = M.tris(s).reshape(-1, 3).min(0), M.tris(s).reshape(-1, 3).max(0)
        if k == 0:
            d = hi - lo
            s = g3.solid(s[1] + g3.translatesolid(s, g.point(d[0], d[1], 0))[1], [], [])
        else:
            t = M.tris(s)[rng.randrange(len(M.tris(s)))]
            if k == 1:
                t = np.array([t[0], t[1], t.mean(0) + [9.5, 7.25, 8.125]])
            n = np.cross(t[1] - t[0], t[2] - t[0])
            n = g.vect(*(n / np.linalg.norm(n)), 0)
            s = g3.solid(s[1] + [g3.surface([g.point(*map(float, v)) for v in t], [n] * 3, [[0, 1, 2]])], [], [])
        ctx.ev("overused")
    T = M.tris(s)
    if len(T) > 800:
        return
    name = rng.choice(NAMES)
    before = repr([x[1:4] for x in (s[1] if s[0] == "solid" else [s])])
    mode = rng.randrange(3)
    ctx.ev("files")
    if name not in ("yapCAD", "bracket"):
        ctx.ev("names")
    ctx.case([name, before[:400]])
    p = os.path.join(TMP, f"m{rng.randrange(10**9)}.step")
    if mode == 0:
        step.write_step(s, p, name=name)
        text = open(p, encoding="utf-8").read()
    elif mode == 1:
        r = step.write_step_analytic(s, p, name=name)
        text = open(p, encoding="utf-8").read()
        ctx.check(r is False, "analytic", lambda: f"write_step_analytic returned {r} without OCC")
    else:
        f = io.StringIO()
        step.write_step(s, f, name=name)
        text = f.getvalue()
    if mode < 2:
        os.unlink(p)
        try:
            step.write_step_analytic(s, p, name=name, fallback_to_faceted=False)
            ctx.viol("analytic", "analytic export without OCC and without fallback succeeded")
        except RuntimeError:
            ctx.check(not os.path.exists(p), "analytic:file", "refused export left a file")
    f = io.StringIO()
    step.write_step(s, f, name=name)
    ctx.check(f.getvalue() == text, "deterministic", "two exports of the same object differ")
    ctx.check(before == repr([x[1:4] for x in (s[1] if s[0] == "solid" else [s])]), "mutates", "exported object was modified")
    try:
        H, E, faces, shells, pname = brep(text)
    except Bad as e:
        return ctx.viol("format", f"name {name!r}: {e}", text[:400])
    ctx.ev("entities", len(E))
    ctx.check(text.isascii(), "ascii", "file is not plain ASCII")
    ctx.check(pname == name and unstring(H["FILE_NAME"][0]) == name and all(s[3] in (name, f"{name}_{i+1}") for i, s in enumerate(shells)), "name", lambda: f"product name {name!r} is written as {pname!r}")
    # the faces are the triangles
    n2 = np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)
    keep = n2 > 1e-9
    W = np.round(T[keep], 6) + 0.0
    got = [faces[k][0] for k in sorted(faces)]
    ok = len(W) == len(got) and all(x.shape == (3, 3) and np.abs(x - y).max() < 1.5e-6 for x, y in zip(got, W))
    ctx.check(ok, "faces", lambda: f"{len(W)} triangles, {len(got)} faces, or coordinates/winding/order differ", None)
    for P, path, o, n, ref in faces.values():
        c = np.cross(P[1] - P[0], P[2] - P[0])
        L = np.linalg.norm(c)
        if L < 1e-3:
            continue
        ctx.check(abs(np.linalg.norm(n) - 1) < 3e-6 and c @ n / L > 1 - 1e-5 and abs((P[0] - o) @ n) < 1e-5 * (1 + np.abs(P).max()), "plane", lambda: f"face {P.tolist()} has plane normal {n} at {o}")
        ctx.check(abs(np.linalg.norm(ref) - 1) < 3e-6 and abs(ref @ n) < 1e-5, "refdir", lambda: f"reference direction {ref} of normal {n}")
    # topology: one EDGE_CURVE per vertex pair
    curve = {}
    for P, path, *_ in faces.values():
        for s0, e0, ec, o in path:
            curve.setdefault(frozenset((s0, e0)), set()).add(ec)
    ctx.check(all(len(x) == 1 for x in curve.values()), "edges:shared", "one edge has two EDGE_CURVEs")
    verts = {}
    for k, a in E.values():
        if k == "CARTESIAN_POINT":
            verts.setdefault(tuple(a[1]), 0)
            verts[tuple(a[1])] += 1
    ctx.check(all(v == 1 for v in verts.values()), "vertices:shared", "the same point is written as two vertices")
    C, closed = comps(M.weld(T[keep], 2e-6).tolist())
    want = sorted((len(c), cl) for c, cl in zip(C, closed))
    have = sorted((len(f), k == "MANIFOLD_SOLID_BREP") for k, sk, f, nm in shells)
    ctx.check(want == have, "shells", lambda: f"components (size, closed) {want[:6]}, shells {have[:6]}", None)
    for k, sk, fs, nm in shells:
        ctx.ev("closed_shells" if sk == "CLOSED_SHELL" else "open_shells")
        use = {}
        for f in fs:
            for s0, e0, ec, o in faces[f][1]:
                use.setdefault(ec, []).append(o)
        if sk == "CLOSED_SHELL":
            ctx.check(all(sorted(v) == [".F.", ".T."] for v in use.values()), "shell:senses", "an edge of a closed shell is not used once in each direction", None)


def refuse(ctx, rng):
    for bad in (["solid", [], [], []], ["surface", [], [], [], [], []], [1, 2, 3], g.line(g.point(0, 0), g.point(1, 1))):
        p = os.path.join(TMP, "bad.step")
        try:
            step.write_step(bad, p)
            ctx.viol("refuse", lambda: f"write_step of {str(bad)[:50]} succeeded")
        except ValueError:
            ctx.check(not os.path.exists(p), "refuse:file", "refused export left a file")


def checks(ctx, rng):
    s = gen3.surf(rng) if rng.random() < .6 else M.tris(gen3.solid(rng))
    if not isinstance(s, list):     # weld a solid's faces into one surface
        ids = M.weld(s)
        P = s.reshape(-1, 3)
        root = sorted(set(ids.reshape(-1).tolist()))
        ix = {r: i for i, r in enumerate(root)}
        V = [None] * len(root)
        for r, q in zip(ids.reshape(-1).tolist(), P):
            V[ix[r]] = g.point(*map(float, q))
        F = [[ix[x] for x in f] for f in ids.tolist() if len(set(f)) == 3]
        s = ["surface", V, [[0, 0, 1, 0]] * len(V), F, [], []]
    if rng.random() < .5:
        import copy
        s = copy.deepcopy(s)
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(3)
            if k == 0 and len(s[3]) > 1:
                s[3].pop(rng.randrange(len(s[3])))
            elif k == 1:
                s[3].append(list(s[3][rng.randrange(len(s[3]))]))
            else:
                f = s[3][rng.randrange(len(s[3]))]
                f[:] = f[1:] + f[:1]
    cnt = {}
    for a, b, c in s[3]:
        for e in ((a, b), (b, c), (c, a)):
            k = tuple(sorted(e))
            cnt[k] = cnt.get(k, 0) + 1
    bd = sum(1 for v in cnt.values() if v == 1)
    over = sorted(k for k, v in cnt.items() if v > 2)
    r = gc.surface_watertight(s)
    ctx.ev("watertight")
    ctx.case([len(s[3]), bd, over[:5], s[1][0]])
    w = " ".join(r.warnings)
    ctx.check(bool(r) == r.ok == (not bd and not over), "watertight", lambda: f"{bd} open, {len(over)} over-used edges, reported {r.ok}")
    ctx.check((f"{bd} boundary edges" in w) == bool(bd) and ("multiplicity" in w) == bool(over) and all(str(k) in w for k in over), "watertight:report", lambda: f"{bd} open, over {over}: {w}")
    # planar surfaces: orientation is consistent unless a face is flipped
    n = rng.randint(3, 9)
    import math
    P = [(math.cos(i * math.tau / n) * 3, math.sin(i * math.tau / n) * 3) for i in range(n)]
    f = g3.poly2surface([g.point(*q) for q in P + P[:1]])[0]
    f = g3.rotatesurface(f, rng.uniform(0, 360), axis=g.point(1, 2, 3))
    ctx.check(gc.faces_oriented(f).ok, "oriented", "consistent planar surface reported inconsistent")
    if len(f[3]) > 1:
        j = rng.randrange(1, len(f[3]))
        f[3][j] = f[3][j][::-1]
        q = gc.faces_oriented(f)
        ctx.check(not q.ok and str([j]) in " ".join(q.warnings), "oriented:flip", lambda: f"flipped face {j}: {q}")
    pts = [g.point(*[rng.uniform(-5, 5) for _ in range(3)]) for _ in range(rng.randint(2, 6))]
    d = rng.choice([0, 1e-7, 1e-3, 1])
    if rng.random() < .7:
        pts.append(g.add(pts[0], g.point(0, 0, d)))
    ctx.check(bool(gc.is_closed_polygon(pts)) == (g.dist(pts[0], pts[-1]) <= 5e-6), "closedpoly", lambda: f"is_closed_polygon, gap {g.dist(pts[0], pts[-1])}")


def occ(ctx, rng):
    """a real STEP reader (the OCC inside gmsh) reads the file without complaint: same bodies, volume, area, box, in millimetres"""
    import contextlib
    import gmsh
    if rng.random() < .75:
        s = gen3.solid(rng)
    else:
        s = g3.solid(gen3.solid(rng)[1] + g3.translatesolid(gen3.solid(rng), g.point(60, 0, 0))[1], [], [])
    if rng.random() < .5:
        s = g3.translatesolid(g3.rotatesolid(s, rng.uniform(0, 360), axis=g.point(1, 2, 2)), g.point(*[rng.uniform(-40, 40) for _ in range(3)]))
    T = M.tris(s)
    if len(T) > 300:
        return
    C, closed = comps(M.weld(T, 2e-6).tolist())
    nz = np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1)
    if not all(closed) or nz.min() < 1e-3 or np.linalg.norm(T - np.roll(T, 1, axis=1), axis=2).min() < 1e-3:
        return
    p = os.path.join(TMP, "occ.step")
    step.write_step(s, p, name=rng.choice(NAMES))
    unit, k = rng.choice([("MM", 1.0), ("M", 1e-3), ("CM", .1)])
    log = os.path.join(TMP, "occ.log")
    sys.stdout.flush()
    save, fd = os.dup(1), os.open(log, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
    os.dup2(fd, 1)
    try:
        gmsh.initialize(interruptible=False)
        gmsh.option.setNumber("General.Terminal", 0)
        gmsh.option.setNumber("Geometry.OCCSewFaces", 0)
        gmsh.option.setNumber("Geometry.OCCMakeSolids", 0)
        gmsh.option.setString("Geometry.OCCTargetUnit", unit)
        try:
            ents = gmsh.model.occ.importShapes(p)
            vol = [gmsh.model.occ.getMass(d, t) for d, t in ents if d == 3]
            gmsh.model.occ.synchronize()
            faces = gmsh.model.getEntities(2)
            area = sum(gmsh.model.occ.getMass(d, t) for d, t in faces)
            err = None
        except Exception as e:
            err = str(e)
        gmsh.finalize()
    finally:
        os.dup2(save, 1)
        os.close(save)
        os.close(fd)
    text = open(log, errors="replace").read()
    ctx.ev("occ")
    ctx.ev("occ:faces", len(T))
    ctx.case(["occ", unit, T[:3].tolist()])
    if err is not None:
        return ctx.viol("occ:read", f"a STEP reader refuses the file: {err}", text[-400:])
    ctx.check("ERR" not in text and "Fails" not in text, "occ:syntax", lambda: f"a STEP reader complains: {text[-200:]!r}")
    want = sorted(abs(M.volume(T[c])) * k ** 3 for c in C)
    ctx.check(len(vol) == len(want) and all(abs(a - b) < 1e-4 * max(want) for a, b in zip(sorted(map(abs, vol)), want)), "occ:volume", lambda: f"bodies read with volumes {sorted(vol)} {unit}, meshes {want}")
    ctx.check(len(faces) == len(T) and abs(area - nz.sum() / 2 * k * k) < 1e-4 * nz.sum() * k * k, "occ:area", lambda: f"{len(faces)} faces, area {area}; {len(T)} triangles, area {nz.sum() / 2 * k * k}")


GROUPS = {"export": (export, 220), "occ": (occ, 60), "checks": (checks, 250), "refuse": (refuse, 2, 4)}

if __name__ == "__main__":
    vf.main(globals())
