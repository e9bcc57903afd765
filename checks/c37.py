import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import math
import numpy as np
import vf

PROP = "C37"
LEVEL = "exploration"
META = dict(
    title="3D plane, triangle and line queries agree with vector geometry",
    statement="linePlaneIntersect returns the point where a line meets the xy, yz or xz plane, the plane of a triangle, or a planar basis, and False when the line is parallel or, with inside=True, when the meeting point is off the segment (or off the triangle); triTriIntersect returns exactly the common segment of two non-coplanar triangles, the common polygon of two coplanar overlapping triangles, the line common to both planes with inside=False, in world or in-plane coordinates as asked, and False when they do not meet; tri2p0n returns the centroid, unit normal and mutually inverse rigid transforms to and from the triangle's frame; signedFaceDistance and signedPlaneDistance return the true minimum distance with the side's sign; surf2lines returns each edge of a surface once; addTri2Surface adds one face and re-uses coincident vertices; surfacearea is the sum of the triangle areas. Arguments are never modified.",
    over=["inputs"], q="for all triangles, lines, planes and points (away from tolerance-close tangencies)",
    why="Tests use a few axis-aligned triangles; errors hide in the relative orientation, winding, edge order and position of the two operands.",
    files=["src/yapcad/geom3d.py", "src/yapcad/geom.py"],
    mech=[("linePlaneIntersect, triTriIntersect, tri2p0n, signedFaceDistance, surf2lines, addTri2Surface", "src/yapcad/geom3d.py"), ("isInsideTriangleXY", "src/yapcad/geom.py")],
    technique="online reference-model monitor: every call compared with an independent numpy oracle (interval clipping, convex clipping by area sampling, point-triangle distance)",
    note="Exploration. Contacts within 1e-3 of a tangency are not judged.",
)
RULE = "random, lattice and near-axis triangles, winding and rotation variants, coplanar pairs, planes given in every accepted form; distinct by operands"
REQUIRE = {"segments": 300, "misses": 300, "coplanar": 150, "plane_lines": 1500, "faces": 1000, "bases": 500, "edges_once": 60}


def init():
    global g, g3, u, M
    from yapcad import geom as g, geom3d as g3, geom3d_util as u
    import mesh3 as M


def P(T):
    return [g.point(*map(float, r)) for r in T]


def rt(rng, lat=None):
    lat = rng.random() < .3 if lat is None else lat
    while True:
        s = rng.choice([1, 5, 5, 30])
        a = np.array([[float(rng.randint(-4, 4)) if lat else rng.uniform(-s, s) for _ in range(3)] for _ in range(3)])
        if rng.random() < .15:
            a[:, rng.randrange(3)] = float(rng.randint(-2, 2))
        L = [np.linalg.norm(a[i] - a[i - 1]) for i in range(3)]
        if np.linalg.norm(np.cross(a[1] - a[0], a[2] - a[0])) > .1 * max(L) ** 2:
            return a


def nrm(T):
    n = np.cross(T[1] - T[0], T[2] - T[0])
    return n / np.linalg.norm(n)


def clip(T, p, d):
    n, lo, hi = nrm(T), -1e9, 1e9
    for i in range(3):
        m = np.cross(n, T[(i + 1) % 3] - T[i])
        s, r = m @ (p - T[i]), m @ d
        if abs(r) < 1e-9 * np.linalg.norm(m):
            if s < 0:
                return 1e9, -1e9
        elif r > 0:
            lo = max(lo, -s / r)
        else:
            hi = min(hi, -s / r)
    return lo, hi


def planes(A, B):
    n1, n2 = nrm(A), nrm(B)
    d = np.cross(n1, n2)
    if np.linalg.norm(d) < .05:
        return None
    d /= np.linalg.norm(d)
    return np.linalg.solve(np.array([n1, n2, d]), np.array([n1 @ A[0], n2 @ B[0], 0])), d


def tritri(ctx, rng):
    for _ in range(6):
        A, B = rt(rng), rt(rng)
        if rng.random() < .6:   # make contact likely
            B = B + A.mean(0) - B.mean(0) + np.array([rng.gauss(0, 1) for _ in range(3)]) * rng.choice([0, .5, 2])
        r = planes(A, B)
        if r is None:
            continue
        p, d = r
        if np.linalg.norm(p) > 200:
            continue
        l1, h1 = clip(A, p, d)
        l2, h2 = clip(B, p, d)
        # how clearly each triangle crosses the other's plane
        clear = True
        for X, Y in ((A, B), (B, A)):
            h = (X - Y[0]) @ nrm(Y)
            if np.abs(h).min() < 1e-3:
                clear = False
        lo, hi = max(l1, l2), min(h1, h2)
        pa, pb = P(A), P(B)
        k = rng.random()
        basis = g3.tri2p0n(pa, basis=True) if k < .3 else None
        inpl = rng.random() < .3
        key = [A.tolist(), B.tolist(), inpl, k < .3]
        snap = repr((pa, pb))
        kw = dict(inPlane=inpl)
        if basis:
            kw["basis"] = basis
        r = g3.triTriIntersect(pa, pb, **kw)
        ctx.check(repr((pa, pb)) == snap, "tritri:mutates", "triTriIntersect modified a triangle", key)
        ctx.case(key)
        tfor = g3.tri2p0n(pa, basis=True)
        back = lambda q: np.array((tfor[3].mul(q) if inpl else q)[:3])
        if not clear:
            continue
        if hi - lo > 1e-2:
            ctx.ev("segments")
            if not ctx.check(bool(r) and len(r) == 2, "tritri:miss", lambda: f"triangles {A.tolist()} {B.tolist()} share a segment of length {hi-lo}, got {r}", key):
                continue
            if inpl:
                ctx.check(all(abs(q[2]) < 1e-6 for q in r), "tritri:inplane", lambda: f"inPlane result off the plane: {r}", key)
            W = [back(q) for q in r]
            t = sorted((w - p) @ d for w in W)
            off = max(np.linalg.norm((w - p) - ((w - p) @ d) * d) for w in W)
            ctx.check(abs(t[0] - lo) < 1e-4 and abs(t[1] - hi) < 1e-4 and off < 1e-4, "tritri:segment",
                      lambda: f"triangles {A.tolist()} {B.tolist()}: segment {W}, expected {p+lo*d} - {p+hi*d}", key)
        elif hi - lo < -1e-2:
            ctx.ev("misses")
            ctx.check(not r, "tritri:ghost", lambda: f"triangles {A.tolist()} {B.tolist()} do not meet, got {r}", key)
        r = g3.triTriIntersect(pa, pb, inside=False)
        if ctx.check(bool(r) and len(r) == 2, "tritri:inf-miss", lambda: f"planes of {A.tolist()} {B.tolist()} cross, inside=False gave {r}", key):
            W = [np.array(q[:3]) for q in r]
            off = max(np.linalg.norm((w - p) - ((w - p) @ d) * d) for w in W)
            ctx.check(off < 1e-3 and np.linalg.norm(W[0] - W[1]) > 1e-6, "tritri:inf", lambda: f"inside=False line {W} is not the planes' common line (off {off})", key)


def coplanar(ctx, rng):
    A = rt(rng)
    n = nrm(A)
    x = (A[1] - A[0]) / np.linalg.norm(A[1] - A[0])
    y = np.cross(n, x)
    s = np.abs(A - A.mean(0)).max()
    while True:
        B2 = np.array([[rng.uniform(-1.5, 1.5) * s, rng.uniform(-1.5, 1.5) * s] for _ in range(3)])
        ar = B2[1] - B2[0], B2[2] - B2[0]
        if abs(ar[0][0] * ar[1][1] - ar[0][1] * ar[1][0]) > .1 * s * s:
            break
    if rng.random() < .2:
        B2 += 10 * s
    B = np.array([A.mean(0) + q[0] * x + q[1] * y for q in B2])
    lift = rng.random() < .2
    if lift:
        B = B + n * .5
    A2 = np.array([[(q - A.mean(0)) @ x, (q - A.mean(0)) @ y] for q in A])
    key = [A.tolist(), B.tolist()]
    ctx.case(key)
    ctx.ev("coplanar")
    inpl = rng.random() < .3
    r = g3.triTriIntersect(P(A), P(B), inPlane=inpl)
    if lift:
        ctx.check(not r, "coplanar:parallel", lambda: f"parallel distinct planes gave {r}", key)
        return
    # oracle: exact area by half-plane clipping in floats (independent implementation)
    poly = ccw(A2)
    C = ccw(B2)
    for i in range(3):
        p, e = C[i], C[(i + 1) % 3] - C[i]
        out = []
        for j in range(len(poly)):
            q, w = poly[j], poly[(j + 1) % len(poly)]
            sq, sw = e[0] * (q[1] - p[1]) - e[1] * (q[0] - p[0]), e[0] * (w[1] - p[1]) - e[1] * (w[0] - p[0])
            if sq >= 0:
                out.append(q)
            if sq * sw < 0:
                out.append(q + (w - q) * sq / (sq - sw))
        poly = out
        if not poly:
            break
    want = shoelace(poly) if len(poly) > 2 else 0.0
    if want < 1e-3 * s * s:
        if want == 0 and not poly:
            ctx.check(not r, "coplanar:ghost", lambda: f"disjoint coplanar triangles gave {r}", key)
        return
    if not ctx.check(bool(r) and len(r) > 3, "coplanar:miss", lambda: f"coplanar triangles overlap by {want}, got {r}", key):
        return
    tb = g3.tri2p0n(P(A), basis=True)
    W = [np.array((tb[3].mul(q) if inpl else q)[:3]) for q in r]
    ctx.check(np.linalg.norm(W[0] - W[-1]) < 1e-6, "coplanar:closed", "overlap polygon is not closed", key)
    off = max(abs((w - A[0]) @ n) for w in W)
    L = [np.array([(w - A.mean(0)) @ x, (w - A.mean(0)) @ y]) for w in W[:-1]]
    ctx.check(off < 1e-5 and abs(abs(shoelace(L)) - want) < 1e-4 * (1 + want), "coplanar:area", lambda: f"overlap area {shoelace(L)} (plane error {off}), expected {want}", key)


def ccw(T):
    return list(T) if shoelace(T) > 0 else list(T[::-1])


def shoelace(L):
    return sum(L[i - 1][0] * L[i][1] - L[i][0] * L[i - 1][1] for i in range(len(L))) / 2


def lineplane(ctx, rng):
    for _ in range(8):
        ctx.ev("plane_lines")
        s = rng.choice([1, 10])
        q = np.array([[rng.choice([float(rng.randint(-5, 5)), rng.uniform(-s, s)]) for _ in range(3)] for _ in range(2)])
        k = rng.choice(["xy", "yz", "xz", "tri", "basis"])
        inside = rng.random() < .5
        T = rt(rng)
        if k in ("tri", "basis"):
            n, o = nrm(T), T[0]
            if rng.random() < .5:
                w = [rng.random() for _ in range(3)]
                m = sum(x * t for x, t in zip(w, T)) / sum(w)
                dd = np.array([rng.gauss(0, 1) for _ in range(3)])
                q = np.array([m - dd * rng.uniform(-.5, 3), m + dd * rng.uniform(.5, 3)])
        else:
            n = np.eye(3)[{"xy": 2, "yz": 0, "xz": 1}[k]]
            o = np.zeros(3)
        h = (q - o) @ n
        pl = k if len(k) == 2 else (P(T) if k == "tri" else g3.tri2p0n(P(T), basis=True))
        ln = P(q)
        snap = repr(ln)
        key = [k, inside, q.tolist(), T.tolist() if len(k) > 2 else 0]
        r = g3.linePlaneIntersect(ln, pl, inside)
        ctx.case(key)
        ctx.check(repr(ln) == snap, "lineplane:mutates", "line modified", key)
        if abs(h[0] - h[1]) < 1e-9:
            ctx.check(not r, "lineplane:parallel", lambda: f"line {q.tolist()} parallel to plane gave {r}", key)
            continue
        if abs(h[0] - h[1]) < 1e-3 * np.linalg.norm(q[0] - q[1]):
            continue
        uu = h[0] / (h[0] - h[1])
        x = q[0] + uu * (q[1] - q[0])
        want = True
        if inside:
            if min(abs(uu), abs(1 - uu)) < 1e-6 and not (len(k) == 2 and (h == 0).any()):
                continue
            want = 0 <= uu <= 1
            if want and k == "tri":
                b = bary(T, x)
                if np.abs(b).min() < 1e-5:
                    continue
                want = b.min() > 0
        if not want:
            ctx.check(not r, "lineplane:ghost", lambda: f"{k} inside={inside}: line {q.tolist()} plane {T.tolist()} gave {r}, expected False", key)
        elif ctx.check(bool(r), "lineplane:miss", lambda: f"{k} inside={inside}: line {q.tolist()} plane {T.tolist()} gave {r}, expected {x}", key):
            ctx.check(np.abs(np.array(r[:3]) - x).max() < 1e-5 * (1 + np.abs(x).max()) and abs(r[3] - 1) < 1e-9, "lineplane:point", lambda: f"{k}: got {r}, expected {x}", key)


def bary(T, x):
    n = np.cross(T[1] - T[0], T[2] - T[0])
    return np.array([np.cross(T[(i + 1) % 3] - x, T[(i + 2) % 3] - x) @ n for i in range(3)]) / (n @ n)


def face(ctx, rng):
    T = rt(rng)
    n, c = nrm(T), T.mean(0)
    t = P(T)
    p0, nn, F, I = g3.tri2p0n(t, basis=True)
    ctx.ev("bases")
    ctx.case(T.tolist())
    ctx.check(np.abs(np.array(p0[:3]) - c).max() < 1e-6 and np.abs(np.array(nn[:3]) - n).max() < 1e-7 and p0[3] == 1 or abs(p0[3] - 1) < 1e-9, "tri2p0n:center", lambda: f"tri2p0n center/normal {p0} {nn}, expected {c} {n}", T.tolist())
    b = g3.tri2p0n(t)
    ctx.check(len(b) == 2 and b[0] == p0 and list(b[1][:3]) == list(nn[:3]), "tri2p0n:short", "basis=False disagrees with basis=True")
    x = (T[1] - T[0]) / np.linalg.norm(T[1] - T[0])
    y = np.cross(n, x)
    R = np.array([x, y, n])
    for _ in range(4):
        q = np.array([rng.uniform(-20, 20) for _ in range(3)])
        f = np.array(F.mul(g.point(*q))[:3])
        ctx.check(np.abs(f - R @ (q - c)).max() < 1e-6, "tri2p0n:forward", lambda: f"forward({q}) = {f}, expected {R@(q-c)}", T.tolist())
        w = np.array(I.mul(g.point(*f))[:3])
        ctx.check(np.abs(w - q).max() < 1e-6, "tri2p0n:inverse", lambda: f"inverse(forward({q})) = {w}", T.tolist())
        ctx.check(abs(g3.signedPlaneDistance(g.point(*q), p0, nn) - (q - c) @ n) < 1e-6, "planedist", lambda: "signedPlaneDistance wrong", [T.tolist(), q.tolist()])
        if rng.random() < .5:
            k = rng.random()
            e = T[0] + rng.uniform(-1, 2) * (T[1] - T[0]) + rng.uniform(-1, 2) * (T[2] - T[0])
            q = e + n * (0 if k < .3 else rng.uniform(-5, 5))
        h = (q - T[0]) @ n
        D = float(M.dist_to(np.array([T]), np.array([q]))[0])
        ctx.ev("faces")
        r = g3.signedFaceDistance(g.point(*q), t)
        want = D if h >= -1e-9 else -D
        if abs(h) < 1e-4 and abs(h) > 1e-12:
            continue
        ok = abs(r - want) < 1e-4 * (1 + D) or (abs(h) < 1e-9 and abs(abs(r) - D) < 1e-5)
        ctx.check(ok, "facedist", lambda: f"signedFaceDistance({q},{T.tolist()}) = {r}, expected {want}", [T.tolist(), q.tolist()])
    try:
        v = T[1] - T[0]
        g3.tri2p0n(P([T[0], T[1], T[0] + 2 * v]))
        bad = True
    except ValueError:
        bad = False
    ctx.check(not bad, "tri2p0n:degenerate", "degenerate face accepted")
    # planar containment
    T2 = T.copy()
    T2[:, 2] = 0
    a = T2[1] - T2[0], T2[2] - T2[0]
    if abs(a[0][0] * a[1][1] - a[0][1] * a[1][0]) > .1:
        for _ in range(4):
            w = [rng.uniform(-.6, 1) for _ in range(2)]
            w.append(1 - sum(w))
            q = sum(k * t for k, t in zip(w, T2))
            if min(map(abs, w)) < 1e-4:
                continue
            ctx.ev("in_triangle")
            ctx.check(bool(g.isInsideTriangleXY(g.point(*q), P(T2))) == (min(w) > 0), "intri", lambda: f"isInsideTriangleXY({q},{T2.tolist()}) wrong (weights {w})", [T2.tolist(), q.tolist()])


def mesh(ctx, rng):
    k = rng.randrange(5)
    if k == 0:
        s = u.prism(rng.uniform(1, 5), rng.uniform(1, 5), rng.uniform(1, 5))
        S = rng.choice(s[1])
    elif k == 1:
        S = u.sphere(rng.uniform(2, 9), depth=rng.randint(0, 2))[1][0]
    elif k == 2:
        S = rng.choice(u.conic(2, 1, 3, angr=rng.choice([15, 30]))[1])
    elif k == 3:
        n = rng.randint(3, 12)
        pts = [g.point(5 * math.cos(6.283185307 * i / n), 3 * math.sin(6.283185307 * i / n)) for i in range(n)]
        S = g3.poly2surface(pts + [pts[0]])[0]
    else:
        S = ["surface", [], [], [], [], []]
        tri = [rt(rng, True) for _ in range(rng.randint(1, 8))]
        area = 0
        for t in tri:
            nf = len(S[3])
            S2 = g3.addTri2Surface(P(t), S, check=False)
            ctx.check(len(S2[3]) == nf + 1, "addtri:faces", f"addTri2Surface went from {nf} to {len(S2[3])} faces")
            f = S2[3][-1]
            ctx.check(all(np.abs(np.array(S2[1][i][:3]) - t[j]).max() < 1e-5 for j, i in enumerate(f)), "addtri:corners", lambda: f"new face {[S2[1][i] for i in f]} is not {t.tolist()}", t.tolist())
            S = S2
            area += np.linalg.norm(np.cross(t[1] - t[0], t[2] - t[0])) / 2
        ds = {tuple(map(float, q)) for t in tri for q in t}
        ctx.ev("addtri")
        ctx.check(len(S[1]) == len(ds) == len(S[2]), "addtri:reuse", f"{len(S[1])} vertices ({len(S[2])} normals) for {len(ds)} distinct corners")
        ctx.check(abs(g3.surfacearea(S) - area) < 1e-5 * (1 + area), "area", lambda: f"surfacearea {g3.surfacearea(S)} vs {area}")
    ctx.case(repr(S)[:500])
    A = M.area(M.tris(S))
    ctx.check(abs(g3.surfacearea(S) - A) < 1e-5 * (1 + A), "area", lambda: f"surfacearea {g3.surfacearea(S)} vs {A}")
    before = repr(S[:4])
    L = g3.surf2lines(S)
    ctx.check(repr(S[:4]) == before, "surf2lines:mutates", "surf2lines changed the surface")
    want = {frozenset((a, b)) for f in S[3] for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0]))}
    key = lambda p: tuple(round(x, 7) for x in p[:3])
    from collections import Counter
    got = Counter(tuple(sorted((key(l[0]), key(l[1])))) for l in L)
    exp = Counter(tuple(sorted((key(S[1][a]), key(S[1][b])))) for a, b in map(tuple, want))
    ctx.ev("edges_once")
    ctx.check(got == exp, "surf2lines", lambda: f"surf2lines drew {sum(got.values())} lines for {sum(exp.values())} edges")


GROUPS = {"tritri": (tritri, 2000), "coplanar": (coplanar, 800), "lineplane": (lineplane, 1500), "face": (face, 1500), "mesh": (mesh, 500)}

if __name__ == "__main__":
    vf.main(globals())
