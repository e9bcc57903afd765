import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math, copy
import vf
from gen2d import *

PROP = "C01"
LEVEL = "exploration"
META = dict(
    title="2D/3D affine transforms act pointwise and leave their input alone",
    statement="Translating, scaling (uniformly, or per axis when no arc is involved, about any center), rotating (any center; any axis for arc-free figures) or mirroring a point, line, arc, polyline, polygon or (nested) geometry list with the functional API, and applying any composition of transformation matrices to arc-free figures, yields the figure whose sample at every parameter is the image of the original's sample at that parameter (for full circles: same point set), with length scaled accordingly, and applying the inverse recovers the original. The input figure is never modified and the result shares no mutable structure with it. Transformation matrices multiply, transpose and copy like the real matrices they represent, and the inverse forms are inverses.",
    over=["inputs"], q="for all figures, all transforms and compositions, and all sample parameters",
    why="Tests check a handful of points and one or two figures per transform; the defects live in combinations (arc x plane, centre x scale, sample-reversed arcs, nested lists).",
    files=["src/yapcad/geom.py", "src/yapcad/xform.py"],
    mech=[("translate/scale/rotate/mirror/transform", "src/yapcad/geom.py"), ("Matrix, Rotation, Translation, Scale", "src/yapcad/xform.py")],
    technique="reference-model monitor: every transformed figure is re-sampled and compared with an independent affine image",
    note="Exploration: held on the generated figures/transform chains; oracle is an independent pure-Python evaluator of lines/arcs/polylines; tolerance 1e-6 relative to size.",
)
RULE = "random figures (all kinds, nested lists, sample-reversed arcs, wrapped angles) x random chains of 1-4 transforms; a case is non-trivial when the chain is not the identity"
REQUIRE = {"samples_compared": 5000, "matrix_products": 200}
US = [0.0, 0.13, 0.37, 0.5, 0.71, 0.94, 1.0]


def init():
    global geom, xform
    from yapcad import geom, xform


def rot3(axis, deg):
    n = math.sqrt(sum(a * a for a in axis[:3]))
    x, y, z = [a / n for a in axis[:3]]
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    C = 1 - c
    return [[c + x * x * C, x * y * C - z * s, x * z * C + y * s, 0],
            [y * x * C + z * s, c + y * y * C, y * z * C - x * s, 0],
            [z * x * C - y * s, z * y * C + x * s, c + z * z * C, 0], [0, 0, 0, 1]]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def mv(a, p):
    return [sum(a[i][k] * p[k] for k in range(4)) for i in range(4)]


def tr(d):
    return [[1, 0, 0, d[0]], [0, 1, 0, d[1]], [0, 0, 1, d[2]], [0, 0, 0, 1]]


def sc(x, y, z):
    return [[x, 0, 0, 0], [0, y, 0, 0], [0, 0, z, 0], [0, 0, 0, 1]]


def about(c, m):
    return mm(tr(c), mm(m, tr([-v for v in c[:3]])))


def random_op(rng, has_arc, kind):
    k = rng.choice(['translate', 'scale', 'scalec', 'rotate', 'rotatec', 'mirror'] + ([] if has_arc else ['scalexyz', 'rotaxis', 'transform']))
    if k == 'translate':
        d = P(rng.uniform(-9, 9), rng.uniform(-9, 9), rng.choice([0, 0, rng.uniform(-5, 5)]))
        return k, lambda f: geom.translate(f, d), tr(d), 1.0, lambda f: geom.translate(f, [-d[0], -d[1], -d[2], 1.0])
    if k in ('scale', 'scalec'):
        s = rng.choice([0.5, 2, 3, rng.uniform(0.2, 4)])
        c = P(0, 0) if k == 'scale' else rpt(rng, 6, rng.choice([0, 0, 2.5]))
        kw = {} if k == 'scale' else {'cent': c}
        return k, lambda f: geom.scale(f, s, **kw), about(c, sc(s, s, s)), s, lambda f: geom.scale(f, 1.0 / s, **kw)
    if k == 'scalexyz':
        s = [rng.uniform(0.3, 3) for _ in range(3)]
        c = rpt(rng, 6, 1.5)
        return k, lambda f: geom.scale(f, s[0], s[1], s[2], cent=c), about(c, sc(*s)), None, \
            lambda f: geom.scale(f, 1 / s[0], 1 / s[1], 1 / s[2], cent=c)
    if k in ('rotate', 'rotatec'):
        a = rng.choice([90, 180, -90, 270, 360, 45, rng.uniform(-400, 400)])
        c = P(0, 0) if k == 'rotate' else rpt(rng, 6, 0)
        kw = {} if k == 'rotate' else {'cent': c}
        return k, lambda f: geom.rotate(f, a, **kw), about(c, rot3([0, 0, 1], a)), 1.0, lambda f: geom.rotate(f, -a, **kw)
    if k == 'rotaxis':
        a = rng.uniform(-400, 400)
        ax = P(*[rng.uniform(-1, 1) for _ in range(3)])
        ax[2] += 0.3
        if rng.random() < 0.5:
            n = math.sqrt(sum(v * v for v in ax[:3]))
            ax = P(*[v / n for v in ax[:3]])
        c = rpt(rng, 6, 1)
        return k, lambda f: geom.rotate(f, a, cent=c, axis=ax), about(c, rot3(ax, a)), 1.0, lambda f: geom.rotate(f, -a, cent=c, axis=ax)
    if k == 'mirror':
        pl = rng.choice(['xz', 'yz', 'xy'])
        m = {'xz': sc(1, -1, 1), 'yz': sc(-1, 1, 1), 'xy': sc(1, 1, -1)}[pl]
        return k + pl, lambda f: geom.mirror(f, pl), m, 1.0, lambda f: geom.mirror(f, pl)
    M, R = random_matrix(rng, rng.randint(1, 3))
    return k, lambda f: geom.transform(f, M), R, None, None


def random_matrix(rng, n):
    M, R = xform.Matrix(), sc(1, 1, 1)
    for _ in range(n):
        j = rng.randint(0, 2)
        inv = rng.random() < 0.4
        if j == 0:
            d = P(*[rng.uniform(-5, 5) for _ in range(3)])
            m, r = xform.Translation(d, inverse=inv), tr([-v for v in d[:3]] if inv else d)
        elif j == 1:
            ax = P(*[rng.uniform(-1, 1) for _ in range(3)])
            ax[rng.randint(0, 2)] += 1.2
            a = rng.uniform(-400, 400)
            m, r = xform.Rotation(ax, a, inverse=inv), rot3(ax, -a if inv else a)
        else:
            s = [rng.uniform(0.4, 2.5) for _ in range(3)]
            form = rng.randint(0, 2)
            if form == 0:
                m = xform.Scale(s[0], inverse=inv); s = [s[0]] * 3
            elif form == 1:
                m = xform.Scale(s[0], s[1], s[2], inverse=inv)
            else:
                m = xform.Scale(P(*s), inverse=inv)
            r = sc(*[1 / v if inv else v for v in s])
        M, R = M.mul(m), mm(R, r)
    return M, R


def elements(f):
    if is_pt(f) or is_line(f) or is_arc(f) or is_poly(f):
        return [f]
    return [e for g in f for e in elements(g)]


def check_image(ctx, f, g, R, what):
    ef, eg = elements(f), elements(g)
    if not ctx.check(len(ef) == len(eg), "shape", lambda: f"{what}: element count {len(ef)} -> {len(eg)}", [f, g]):
        return
    scale = 1 + max(abs(v) for e in ef for p in pieces(e) for v in peval(p, 0)[:3])
    tol = 2e-6 * scale * 10
    cn = [sum(R[i][j] ** 2 for i in range(3)) for j in range(3)]
    similar = max(cn) - min(cn) < 1e-9 * max(cn) and all(abs(sum(R[i][j] * R[i][k] for i in range(3))) < 1e-9 * max(cn) for j, k in ((0, 1), (0, 2), (1, 2)))
    for a, b in zip(ef, eg):
        ctx.check((is_pt(a), is_line(a), is_arc(a), is_poly(a)) == (is_pt(b), is_line(b), is_arc(b), is_poly(b)), "kind", f"{what}: kind changed {fmt(a)} -> {fmt(b)}")
        if is_circle(a):
            c = mv(R, a[0])
            s = math.sqrt(R[0][0] ** 2 + R[1][0] ** 2)
            ctx.check(is_circle(b) and close(c, b[0], tol) and abs(b[1][0] - s * a[1][0]) < tol, "circle-image",
                      lambda: f"{what}: circle {fmt(a)} -> {fmt(b)}", [a, b])
            ctx.ev("samples_compared")
            continue
        if is_poly(a) and not similar:     # arc-length parametrization is only preserved by similarities
            ctx.ev("samples_compared", len(a))
            ctx.check(len(a) == len(b) and all(close(mv(R, p), q, tol) for p, q in zip(a, b)), "vertexwise", lambda: f"{what}: {fmt(a)} -> {fmt(b)}")
            continue
        for u in US:
            want = mv(R, rsample(a, u))
            got = geom.sample(b, u)
            ctx.ev("samples_compared")
            if not close(want, got, tol):
                return ctx.viol("pointwise", f"{what}: sample({u}) of image {fmt(got)} expected {fmt(want)} for element {fmt(a)} -> {fmt(b)}", [a, b])


def g_chain(ctx, rng):
    kind, f = rfigure(rng)
    has_arc = any(p[0] == 'A' for p in pieces(f))
    orig = copy.deepcopy(f)
    R = sc(1, 1, 1)
    g = f
    names, ls = [], 1.0
    inv = []
    for _ in range(rng.randint(1, 4)):
        nm, fn, m, s, un = random_op(rng, has_arc, kind)
        before = copy.deepcopy(g)
        h = fn(g)
        ctx.check(g == before, "input-mutated", lambda: f"{nm} modified its input {fmt(before)} -> {fmt(g)}")
        ctx.check(not (ids(g) & ids(h)), "aliased", lambda: f"{nm} of {kind} result shares structure with input {fmt(before)}")
        g = h
        R = mm(m, R)
        names.append(nm)
        ls = None if (ls is None or s is None) else ls * s
        inv.append(un)
        ctx.ev("op:" + nm)
    ctx.case((kind, names, fmt(f)))
    check_image(ctx, orig, g, R, "->".join(names))
    if ls is not None:
        ctx.check(abs(geom.length(g) - ls * rlen(orig)) < 1e-6 * (1 + ls * rlen(orig)), "length", lambda: f"{names}: length {geom.length(g)} expected {ls * rlen(orig)}", orig)
    if all(inv):
        for un in reversed(inv):
            g = un(g)
        ctx.ev("inverse_roundtrips")
        check_image(ctx, orig, g, sc(1, 1, 1), "inverse of " + "->".join(names))


def g_matrix(ctx, rng):
    M, R = random_matrix(rng, rng.randint(1, 4))
    ctx.case(("matrix", fmt(R)))

    def same(m, r, what):
        ctx.ev("matrix_products")
        ok = all(abs(m.get(i, j) - r[i][j]) < 1e-6 * (1 + abs(r[i][j])) for i in range(4) for j in range(4))
        ctx.check(ok, "matrix", lambda: f"{what}: {m} expected {r}")
    same(M, R, "product")
    # transposed views
    T = xform.Matrix(M, trans=True) if rng.random() < 0.5 else xform.Matrix([list(M.getrow(i)) for i in range(4)], True)
    Rt = [[R[j][i] for j in range(4)] for i in range(4)]
    raw = [[T.get(i, j) for j in range(4)] for i in range(4)]
    okT = all(abs(raw[i][j] - Rt[i][j]) < 1e-9 for i in range(4) for j in range(4))
    okM = all(abs(raw[i][j] - R[i][j]) < 1e-9 for i in range(4) for j in range(4))
    ctx.check(okT, "transpose", f"Matrix(M, trans=True) is not the transpose of M: {raw}")
    for i in range(4):
        ctx.check([T.get(i, j) for j in range(4)] == list(T.getrow(i)) and [T.get(j, i) for j in range(4)] == list(T.getcol(i)),
                  "rowcol", f"getrow/getcol disagree with get on a transposed matrix {T}")
    v = P(*[rng.uniform(-5, 5) for _ in range(3)])
    ctx.check(all(abs(a - b) < 1e-7 * (1 + abs(b)) for a, b in zip(T.mul(v), mv(raw, v))), "matvec", "M.mul(vec) wrong with transpose flag")
    same(T.mul(M), mm(raw, [[M.get(i, j) for j in range(4)] for i in range(4)]), "T*M")
    same(M.mul(T), mm([[M.get(i, j) for j in range(4)] for i in range(4)], raw), "M*T")
    k = rng.uniform(-3, 3)
    same(M.mul(k), [[x * k for x in row] for row in R], "scalar")
    same(T.mul(k), [[x * k for x in row] for row in raw], "scalar on transposed")
    # copies are independent
    before = [[M.get(i, j) for j in range(4)] for i in range(4)]
    C = xform.Matrix(M)
    same(C, R, "copy")
    i, j = rng.randint(0, 3), rng.randint(0, 3)
    C.set(i, j, 1234.5)
    row = [1.0, 2.0, 3.0, 4.0]
    C.setrow((i + 1) % 4, row)
    C.setcol((j + 1) % 4, [9.0, 8.0, 7.0, 6.0])
    ctx.check(row == [1.0, 2.0, 3.0, 4.0], "matrix-alias", "setcol modified the list given earlier to setrow")
    ctx.check(before == [[M.get(a, b) for b in range(4)] for a in range(4)], "matrix-alias", "modifying a copied Matrix changed the original")
    ctx.check([C.get(a, (j + 1) % 4) for a in range(4)] == [9.0, 8.0, 7.0, 6.0], "setcol", "setcol did not set the column")
    # elementary inverses
    d = P(*[rng.uniform(-5, 5) for _ in range(3)])
    same(xform.Translation(d).mul(xform.Translation(d, inverse=True)), sc(1, 1, 1), "T*T^-1")
    ax = P(rng.uniform(-1, 1), rng.uniform(-1, 1), rng.uniform(0.2, 1))
    a = rng.uniform(-360, 360)
    same(xform.Rotation(ax, a).mul(xform.Rotation(ax, a, inverse=True)), sc(1, 1, 1), "R*R^-1")
    axb = list(ax)
    xform.Rotation(ax, a)
    ctx.check(ax == axb, "input-mutated", "Rotation modified its axis argument")
    s = [rng.uniform(0.3, 3) for _ in range(3)]
    same(xform.Scale(*s).mul(xform.Scale(*s, inverse=True)), sc(1, 1, 1), "S*S^-1")


GROUPS = {"chain": (g_chain, 6000, 60000), "matrix": (g_matrix, 1200, 12000)}
if __name__ == "__main__":
    vf.main(globals())
