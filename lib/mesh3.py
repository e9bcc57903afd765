"""Mesh oracle: independent measurements of yapCAD solids/surfaces with numpy."""
import math
import numpy as np


def tris(x):
    """(n,3,3) array of the triangles of a surface or solid list structure"""
    surfs = x[1] if x[0] == "solid" else [x]
    out = []
    for s in surfs:
        v = np.array([p[:3] for p in s[1]], float).reshape(-1, 3)
        f = np.array(s[3], int).reshape(-1, 3)
        if len(f):
            out.append(v[f])
    return np.concatenate(out) if out else np.zeros((0, 3, 3))


def volume(T):
    if not len(T):
        return 0.0
    o = T.reshape(-1, 3).mean(0)
    A = T - o
    return float(np.einsum("ij,ij->i", A[:, 0], np.cross(A[:, 1], A[:, 2])).sum() / 6)


def area(T):
    return float(np.linalg.norm(np.cross(T[:, 1] - T[:, 0], T[:, 2] - T[:, 0]), axis=1).sum() / 2)


def box(T):
    P = T.reshape(-1, 3)
    return P.min(0), P.max(0)


def weld(T, tol=1e-5):
    """vertex ids of (n,3) corners after welding corners closer than tol"""
    from scipy.spatial import cKDTree
    P = T.reshape(-1, 3)
    parent = list(range(len(P)))
    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a
    # group exact duplicates first
    U, inv = np.unique(P, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    parent = list(range(len(U)))
    for a, b in cKDTree(U).query_pairs(tol):
        a, b = find(a), find(b)
        if a != b:
            parent[b] = a
    root = np.array([find(i) for i in range(len(U))])
    return root[inv].reshape(-1, 3)


def defects(T, tol=1e-5):
    """list of edges whose two directions do not balance (open or badly oriented);
    degenerate triangles are ignored"""
    ids = weld(T, tol)
    cnt = {}
    for a, b, c in ids.tolist():
        if a == b or b == c or a == c:
            continue
        for u, v in ((a, b), (b, c), (c, a)):
            if u < v:
                cnt[(u, v)] = cnt.get((u, v), 0) + 1
            else:
                cnt[(v, u)] = cnt.get((v, u), 0) - 1
    return [e for e, n in cnt.items() if n]


def edge_uses(T, tol=1e-5):
    ids = weld(T, tol)
    cnt = {}
    for a, b, c in ids.tolist():
        if a == b or b == c or a == c:
            continue
        for u, v in ((a, b), (b, c), (c, a)):
            k = (min(u, v), max(u, v))
            cnt[k] = cnt.get(k, 0) + 1
    return cnt


def winding(T, Q):
    """generalised winding number of triangles T at query points Q (van Oosterom-Strackee)"""
    Q = np.atleast_2d(Q)
    out = np.zeros(len(Q))
    for i, q in enumerate(Q):
        a, b, c = T[:, 0] - q, T[:, 1] - q, T[:, 2] - q
        la, lb, lc = (np.linalg.norm(x, axis=1) for x in (a, b, c))
        num = np.einsum("ij,ij->i", a, np.cross(b, c))
        den = la * lb * lc + np.einsum("ij,ij->i", a, b) * lc + np.einsum("ij,ij->i", b, c) * la + np.einsum("ij,ij->i", c, a) * lb
        out[i] = (2 * np.arctan2(num, den)).sum() / (4 * math.pi)
    return out


def dist_to(T, Q):
    """distance from each query point to the triangle set (exact point-triangle)"""
    Q = np.atleast_2d(Q)
    out = np.full(len(Q), np.inf)
    A, B, C = T[:, 0], T[:, 1], T[:, 2]
    N = np.cross(B - A, C - A)
    nn = np.einsum("ij,ij->i", N, N)
    ok = nn > 1e-30
    for i, q in enumerate(Q):
        d = np.inf
        for P0, P1 in ((A, B), (B, C), (C, A)):
            e = P1 - P0
            L = np.einsum("ij,ij->i", e, e)
            t = np.clip(np.einsum("ij,ij->i", q - P0, e) / np.where(L > 0, L, 1), 0, 1)
            d = min(d, float(np.sqrt((((P0 + e * t[:, None]) - q) ** 2).sum(1).min())))
        w = q - A
        u = np.einsum("ij,ij->i", np.cross(B - A, w), N) / np.where(ok, nn, 1)
        v = np.einsum("ij,ij->i", np.cross(w, C - A), N) / np.where(ok, nn, 1)
        ins = ok & (u >= 0) & (v >= 0) & (u + v <= 1)
        if ins.any():
            h = np.abs(np.einsum("ij,ij->i", w[ins], N[ins])) / np.sqrt(nn[ins])
            d = min(d, float(h.min()))
        out[i] = d
    return out


def normals_ok(s, tolcos=0.0):
    """every vertex normal of surface s is unit, w=0; returns the list of (face, dot)
    whose three vertex normals all point against the face normal"""
    v = np.array([p[:3] for p in s[1]], float).reshape(-1, 3)
    n = np.array([p[:4] for p in s[2]], float).reshape(-1, 4)
    bad = []
    for k, f in enumerate(s[3]):
        fn = np.cross(v[f[1]] - v[f[0]], v[f[2]] - v[f[0]])
        L = np.linalg.norm(fn)
        if L < 1e-12:
            continue
        fn /= L
        if max(float(fn @ n[i, :3]) for i in f) < tolcos:
            bad.append(k)
    return bad
