import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import io, math, struct, shutil, tempfile
import numpy as np
import vf

PROP = "C13"
LEVEL = "exploration"
META = dict(
    title="STL files hold exactly the mesh, and reading one gives it back",
    statement="mesh_view of a surface or solid yields every non-degenerate triangle (of any size), in order and winding, with its unit normal. write_stl writes exactly these triangles, in order and winding, to a path or open stream, as well-formed binary (80-byte header, count, 50-byte records, float32 precision) or ASCII (7 significant digits), whatever the name. read_stl and import_stl recognise either format (also names starting with 'solid', upper case, extra whitespace, files of other writers) and return a solid with the same triangles, in order and winding; with deduplicate coincident vertices are shared and distinct vertices stay apart, vertex normals are the normalised mean of the adjacent facet normals; without it every triangle keeps its own vertices. A closed solid stays closed with the same volume after a round trip; an empty mesh reads as an empty solid; the object written is not modified.",
    over=["inputs"], q="for all surfaces and solids, formats, names, targets and readable files",
    why="Tests round-trip single boxes; lost small faces, precision loss, misdetected formats or wrongly merged vertices depend on the size, position and name used.",
    files=["src/yapcad/io/stl.py", "src/yapcad/mesh.py", "src/yapcad/geometry_utils.py"],
    mech=[("write_stl, read_stl", "src/yapcad/io/stl.py"), ("mesh_view", "src/yapcad/mesh.py"), ("triangle_normal", "src/yapcad/geometry_utils.py")],
    technique="online monitor: independent STL parser and writer in the check; a numpy mesh oracle compares triangles, edges and volume before and after",
    note="Exploration. Coordinates up to 1e4, model sizes 1e-3 to 1e2; degenerate means zero area to rounding.",
)
RULE = "random solids/surfaces, sizes 1e-3..30, offset up to 1e3; binary/ASCII, path/stream, hostile names; foreign files built by the check; distinct by file bytes"
REQUIRE = {"roundtrips": 120, "binary": 50, "ascii": 50, "foreign": 100, "views": 150}


def init():
    global g, g3, stl, mesh, gu, M, gen3, TMP
    from yapcad import geom as g, geom3d as g3, mesh, geometry_utils as gu
    from yapcad.io import stl
    import mesh3 as M, gen3
    TMP = tempfile.mkdtemp(prefix="c13")


def fini():
    shutil.rmtree(TMP, ignore_errors=True)


NAMES = ["yapCAD", "solid", "solid part", "SOLID facet", "a b", "x" * 200, "Zahnrad\u00e4", "facet normal", "", "vertex 1 2 3", "\u6b6f\u8eca", "solidfacet"]


def nondeg(T):
    e = np.stack([T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]])
    c = np.linalg.norm(np.cross(e[0], e[1]), axis=1)
    L = np.maximum((e[0] ** 2).sum(1), (e[1] ** 2).sum(1))
    return c > 1e-9 * L, c > 1e-14 * L


def expected(obj):
    T = M.tris(obj)
    sure, maybe = nondeg(T)
    return T, sure, maybe


def match(T, sure, maybe, got):
    """does the sequence `got` equal T with only surely/possibly degenerate faces left out?"""
    j = 0
    for i in range(len(T)):
        if j < len(got) and np.array_equal(T[i], got[j]):
            j += 1
        elif sure[i]:
            return f"triangle {i} {T[i].tolist()} is missing"
    return None if j == len(got) else f"{len(got) - j} extra triangles"


def parse_binary(b):
    n = struct.unpack("<I", b[80:84])[0]
    assert len(b) == 84 + 50 * n, "file size does not match the count"
    a = np.frombuffer(b[84:], dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]))
    return a["n"].astype(float), a["v"].astype(float)


def parse_ascii(t):
    lines = [x.split() for x in t.splitlines() if x.strip()]
    assert lines[0][0] == "solid" and lines[-1][0] == "endsolid", "solid/endsolid"
    N, V = [], []
    i = 1
    while i < len(lines) - 1:
        assert lines[i][:2] == ["facet", "normal"] and lines[i + 1] == ["outer", "loop"] and lines[i + 5] == ["endloop"] and lines[i + 6] == ["endfacet"], f"facet syntax at line {i}"
        N.append([float(x) for x in lines[i][2:]])
        V.append([[float(x) for x in l[1:]] for l in lines[i + 2:i + 5]])
        i += 7
    return np.array(N).reshape(-1, 3), np.array(V).reshape(-1, 3, 3)


def make(rng):
    size = rng.choice([1e-3, 1e-2, .1, 1, 1, 1, 10])
    if rng.random() < .7:
        s = gen3.solid(rng)
        closed = True
    else:
        s = gen3.surf(rng)
        closed = False
    if size != 1:       # the constructors have a smallest size; meshes have not
        for x in (s[1] if s[0] == "solid" else [s]):
            x[1] = [[c * size for c in p[:3]] + [1.0] for p in x[1]]
    if rng.random() < .3:
        d = g.point(*[rng.uniform(-1, 1) * rng.choice([1, 30, 1000]) * size for _ in range(3)])
        s = (g3.translatesolid if s[0] == "solid" else g3.translatesurface)(s, d)
    return s, closed, size


def canon(s):
    return repr([x[1:4] for x in (s[1] if s[0] == "solid" else [s])])


def view(ctx, rng):
    s, closed, size = make(rng)
    T, sure, maybe = expected(s)
    got = list(mesh.mesh_view(s))
    ctx.ev("views")
    ctx.case(canon(s)[:500])
    V = [np.array(x[1:]) for x in got]
    e = match(T, sure, maybe, V)
    ctx.check(e is None, "view:faces", lambda: f"mesh_view: {e} (size {size})", None)
    for n, a, b, c in got:
        N = np.cross(np.subtract(b, a), np.subtract(c, a))
        L = np.linalg.norm(N)
        if L > 0:
            ctx.check(abs(np.linalg.norm(n) - 1) < 1e-9 and float(np.dot(N, n)) / L > 1 - 1e-6, "view:normal", lambda: f"normal {n} of {a, b, c}")
    tr = list(gu.triangles_from_mesh(iter(got)))
    ctx.check([(t.normal, t.v0, t.v1, t.v2) for t in tr] == got, "view:records", "triangles_from_mesh changed a triangle")
    a, b, c = (tuple(rng.uniform(-5, 5) * size for _ in range(3)) for _ in range(3))
    N = np.cross(np.subtract(b, a), np.subtract(c, a))
    n = gu.triangle_normal(a, b, c)
    ctx.check(n is not None and np.allclose(n, N / np.linalg.norm(N), atol=1e-6), "utils:normal", lambda: f"triangle_normal{a, b, c} = {n}")
    ctx.check(abs(gu.triangle_area(a, b, c) - np.linalg.norm(N) / 2) < 1e-9 * size * size * 100, "utils:area", "triangle_area")
    ctx.check(np.allclose(gu.triangle_centroid(a, b, c), np.mean([a, b, c], axis=0)), "utils:centroid", "triangle_centroid")
    p = tuple(rng.gauss(0, 1) for _ in range(3))
    o = gu.orient_triangle(a, b, c, p)
    d = float(np.dot(N, p))
    ctx.check(o == ((a, b, c) if d >= 0 else (a, c, b)), "utils:orient", lambda: f"orient_triangle{a, b, c, p} = {o}")
    col = (a, tuple((np.array(a) + b) / 2), b)
    ctx.check(gu.triangle_normal(a, a, b) is None and gu.triangle_is_degenerate(*col), "utils:degenerate", "degenerate triangle not recognised")


def roundtrip(ctx, rng):
    s, closed, size = make(rng)
    T, sure, maybe = expected(s)
    name = rng.choice(NAMES)
    binary = rng.random() < .5
    before = canon(s)
    where = rng.randrange(3)
    path = os.path.join(TMP, f"m{rng.randrange(10**9)}.stl")
    if where == 0:
        stl.write_stl(s, path, binary=binary, name=name)
        raw = open(path, "rb").read()
    elif where == 1:
        import pathlib
        stl.write_stl(s, pathlib.Path(path), binary=binary, name=name)
        raw = open(path, "rb").read()
    else:
        f = io.BytesIO() if binary else io.StringIO()
        stl.write_stl(s, f, binary=binary, name=name)
        ctx.check(not f.closed, "write:closed", "caller's stream was closed")
        raw = f.getvalue() if binary else f.getvalue().encode()
    ctx.ev("roundtrips")
    ctx.ev("binary" if binary else "ascii")
    ctx.case([raw[:3000].hex()])
    ctx.check(canon(s) == before, "write:mutates", "the object written was modified")
    try:
        N, V = parse_binary(raw) if binary else parse_ascii(raw.decode("ascii"))
    except (AssertionError, ValueError, IndexError) as e:
        return ctx.viol("write:format", f"not a well-formed {'binary' if binary else 'ASCII'} STL (name {name!r}): {e!r}", raw[:200].hex())
    W = T.astype(np.float32).astype(float) if binary else np.array([[[float("%.6e" % x) for x in p] for p in t] for t in T]).reshape(-1, 3, 3)
    e = match(W, sure, maybe, V)
    ctx.check(e is None, "write:triangles", lambda: f"{'binary' if binary else 'ASCII'} file, size {size}: {e}", None)
    # facet normals follow the right-hand rule
    C = np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 0])
    L = np.linalg.norm(C, axis=1)
    scale = np.abs(V).max() * 1e-6 if len(V) else 0
    ok = L > 50 * scale * np.abs(V[:, 1] - V[:, 0]).max(1) + 1e-12
    ctx.check(bool((np.einsum("ij,ij->i", C, N)[ok] / L[ok] > .9).all()), "write:normal", "a facet normal does not match the winding")
    # read back
    dd = rng.random() < .7
    src = rng.randrange(3)
    with open(path, "wb") as f:
        f.write(raw)
    if src == 0:
        r = stl.read_stl(path, deduplicate=dd)
    elif src == 1:
        r = stl.import_stl(path, deduplicate=dd)
    else:
        r = stl.read_stl(io.BytesIO(raw) if binary or rng.random() < .5 else io.StringIO(raw.decode()), deduplicate=dd)
    os.unlink(path)
    read_ok(ctx, r, N, V, dd, "read")
    if closed and dd and len(V):
        R = M.tris(r)
        d0, d1 = M.defects(T, 1e-7 * max(size, 1e-2)), M.defects(R, 1e-12)
        if not d0:
            # the rounding of coordinates may merge but never split vertices
            ctx.check(not M.defects(R, 3e-7 * np.abs(R).max()), "roundtrip:open", lambda: "closed solid is open after the round trip", None)
        v0, v1 = M.volume(T), M.volume(R)
        err = 2e-6 * np.abs(T).max() * M.area(T)
        ctx.check(abs(v0 - v1) <= err + 1e-12, "roundtrip:volume", lambda: f"volume {v0} became {v1}", None)


def read_ok(ctx, r, N, V, dd, tag):
    if not len(V):
        ctx.check(list(r[:2]) == ["solid", []], f"{tag}:empty", lambda: f"empty file read as {str(r)[:80]}")
        return
    if not ctx.check(r[0] == "solid" and g3.issolid(r, fast=False) and len(r[1]) == 1, f"{tag}:solid", lambda: f"not a one-surface solid: {str(r)[:80]}"):
        return
    sf = r[1][0]
    R = M.tris(r)
    ctx.check(R.shape == V.shape and np.array_equal(R, V), f"{tag}:triangles", lambda: f"{len(V)} triangles in the file, {len(R)} read, or coordinates/winding differ", None)
    P = np.array([v[:3] for v in sf[1]])
    F = [i for f in sf[3] for i in f]
    if dd:
        U = np.unique(V.reshape(-1, 3), axis=0)
        # distinct vertices farther apart than 1e-9 stay apart; equal ones are shared
        ctx.check(len(np.unique(P, axis=0)) == len(P) and len(P) == len(U) or len(np.unique(np.round(U, 8), axis=0)) < len(U), f"{tag}:dedupe", lambda: f"{len(U)} distinct vertices in the file, {len(P)} in the surface", None)
        acc = np.zeros_like(P)
        for t, f in enumerate(sf[3]):
            for i in f:
                acc[i] += N[t]
        n = np.array([x[:3] for x in sf[2]])
        L = np.linalg.norm(acc, axis=1)
        cnt = np.bincount(F, minlength=len(P))
        ok = L / np.maximum(cnt, 1) > 1e-6
        ctx.check(np.allclose(n[ok], acc[ok] / L[ok][:, None], atol=1e-4), f"{tag}:vertexnormals", "a vertex normal is not the mean of its facets' normals", None)
    else:
        ctx.check(len(P) == 3 * len(V) and F == list(range(3 * len(V))), f"{tag}:nodedupe", "deduplicate=False shared vertices")
        ctx.check(np.allclose(np.array([x[:3] for x in sf[2]]).reshape(-1, 3, 3), np.repeat(N[:, None], 3, axis=1)), f"{tag}:normals", "facet normals not kept")


def foreign(ctx, rng):
    n = rng.choice([0, 1, 1, 2, 3, rng.randint(4, 40)])
    sc = rng.choice([1e-3, 1, 1e3])
    # clouds of triangles sharing some vertices exactly, others close by
    pool = [[rng.uniform(-5, 5) * sc for _ in range(3)] for _ in range(max(3, n))]
    for i in range(1, len(pool)):
        if rng.random() < .3:
            pool[i] = list(pool[i - 1])
            pool[i][rng.randrange(3)] += rng.choice([1e-6, 1e-4]) * (1 + sc)
    V = np.array([rng.sample(pool, 3) for _ in range(n)]).reshape(-1, 3, 3)
    N = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(n)]).reshape(-1, 3)
    if n:
        N /= np.linalg.norm(N, axis=1)[:, None]
    binary = rng.random() < .5
    name = rng.choice(NAMES)
    ctx.ev("foreign")
    if binary:
        N, V = N.astype(np.float32).astype(float), V.astype(np.float32).astype(float)
        head = name.encode("utf-8")[:80]
        raw = head.ljust(80, rng.choice([b"\0", b" "])) + struct.pack("<I", n)
        for a, b in zip(N, V):
            raw += struct.pack("<12fH", *a, *b.reshape(-1), rng.randrange(65536))
    else:
        fmt = rng.choice(["%r", "%.17g", "%.9e", "%.6f", "%.3E"])
        up = str.upper if rng.random() < .3 else str
        nl = rng.choice(["\n", "\r\n", "\n\n", " \n\t"])
        q = lambda x: (repr(float(x)) if fmt == "%r" else fmt % x)
        fl = lambda x: float(q(x))
        out = [rng.choice(["solid ", "  solid ", "SOLID "]) + name]
        for a, b in zip(N, V):
            out += [up(x) for x in ["facet normal " + " ".join(map(q, a)), "outer loop"] + ["   vertex   " + " ".join(map(q, p)) for p in b] + ["endloop", "endfacet"]]
        out.append("endsolid " + name)
        raw = (nl.join(out) + "\n").encode("utf-8")
        N = np.array([[fl(x) for x in a] for a in N]).reshape(-1, 3)
        V = np.array([[[fl(x) for x in p] for p in t] for t in V]).reshape(-1, 3, 3)
    if n and len(np.unique(np.round(V.reshape(-1, 3), 9), axis=0)) < 3:
        return      # nothing that could be a surface
    ctx.case(raw[:2000].hex())
    dd = rng.random() < .6
    r = stl.read_stl(io.BytesIO(raw), deduplicate=dd)
    read_ok(ctx, r, N, V, dd, "foreign:" + ("binary" if binary else "ascii"))


GROUPS = {"view": (view, 250), "roundtrip": (roundtrip, 260), "foreign": (foreign, 500)}

if __name__ == "__main__":
    vf.main(globals())
