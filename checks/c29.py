import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json, logging, math, warnings
import vf

PROP = "C29"
LEVEL = "exploration"
META = dict(
    title="Collision reports: overlaps found, clear parts cleared, designed ones excused",
    statement="check_collision() places both parts by their transforms and reports a collision when the placed solids overlap substantially, also when one lies inside the other, and none when they are apart; the answer does not depend on the order of the parts, the penetration depth is that of the deepest overlap found, contact points lie in both parts, the AABB method answers exactly whether the placed bounding boxes meet, missing or unreadable geometry and bad matrices give an error result that claims no collision, and geometry handed in is never moved. check_assembly() checks every unordered pair once except the skipped ones, and the summary counts what the results say. An overlap is excused exactly when the caller's InterfaceRegistry (as it is at that time) holds interfaces of the two parts that overlap in space and all overlapping pairs are compatible: gears of equal module (0.1%) and pressure angle (0.5 degree), one internal and one external thread of equal diameter and pitch; the names given are those interfaces. The registry returns exactly what was registered and not removed, by name, part and type, and refuses duplicates. Gear and thread dimensions, planetary sets and bolt patterns follow their formulas; results survive to_dict/from_dict and JSON.",
    over=["inputs", "histories"], q="for all shapes, placements, interface sets and registry histories",
    why="A collision that is missed, or excused by the wrong interface, is found when the parts are made; one reported for clear parts blocks a valid design.",
    files=["src/yapcad/collision/detector.py", "src/yapcad/collision/registry.py", "src/yapcad/collision/interface.py", "src/yapcad/collision/gear_interface.py", "src/yapcad/collision/thread_interface.py", "src/yapcad/collision/result.py"],
    mech=[("CollisionDetector", "src/yapcad/collision/detector.py"), ("InterfaceRegistry", "src/yapcad/collision/registry.py"), ("GearMeshInterface", "src/yapcad/collision/gear_interface.py"), ("ThreadInterface", "src/yapcad/collision/thread_interface.py")],
    technique="random convex parts and placements against an exact half-space oracle; registry histories against a reference model; formulas recomputed",
    note="Exploration. The mesh method needs the rtree package, which is not installed: a brute-force stand-in for the box index (lib/fakertree.py) is put in its place, everything else is the real code. The method samples surfaces, so only overlaps exposing at least 4% of a surface must be found; overlaps between that and a clear gap, and the sampled volume estimate, are not judged. BREP checks need OCC.",
)
RULE = "random convex parts, rigid placements, interfaces and registry operations; distinct by the recipe"
REQUIRE = {"pair": 150, "overlap": 60, "apart": 50, "contained": 15, "aabb": 300, "error": 60, "depth": 50, "contact": 500, "excused": 60, "notexcused": 100, "assembly": 40, "summary": 40, "registry": 2500, "reg:refused": 150, "compat": 1500, "compat:yes": 300,
           "overlaps": 1500, "overlaps:yes": 300, "planetary": 100, "bolts": 100, "result": 300, "late": 20, "transform": 300}
WALL_QUICK = 240


def init():
    global np, trimesh, CO, TI
    import fakertree
    fakertree.install()
    import numpy as np
    import trimesh
    import yapcad.collision as CO
    from yapcad.collision import thread_interface as TI
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def rot(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def pose(rng, spread):
    T = np.eye(4)
    if rng.random() < 0.7:
        T[:3, :3] = rot(rng)
    T[:3, 3] = [rng.uniform(-spread, spread) for _ in range(3)]
    return T


def convex(rng):
    k = rng.choice(["box", "box", "cyl", "ico", "hull"])
    if k == "box":
        m = trimesh.creation.box([rng.uniform(2, 12) for _ in range(3)])
    elif k == "cyl":
        m = trimesh.creation.cylinder(radius=rng.uniform(1, 5), height=rng.uniform(2, 14), sections=rng.choice([6, 10]))
    elif k == "ico":
        m = trimesh.creation.icosphere(subdivisions=1, radius=rng.uniform(1, 6))
    else:
        r = np.random.RandomState(rng.randrange(2**31))
        m = trimesh.convex.convex_hull(r.uniform(-5, 5, (12, 3)))
    m.apply_translation([rng.uniform(-2, 2) for _ in range(3)])
    return m


def planes(m, T):
    """outward half-spaces n.x <= d of the placed convex mesh"""
    v = m.vertices @ T[:3, :3].T + T[:3, 3]
    t = v[m.faces]
    n = np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    l = np.linalg.norm(n, axis=1)
    ok = l > 1e-12
    n = n[ok] / l[ok][:, None]
    d = np.einsum("ij,ij->i", n, t[ok][:, 0])
    return n, d, v, t[ok], l[ok] / 2


def depth(P, n, d):
    """signed depth (positive inside) below the nearest plane"""
    return (d[None, :] - P @ n.T).min(1)


def sample(t, a, k, R):
    f = R.choice(len(a), k, p=a / a.sum())
    u, v = R.rand(k), R.rand(k)
    w = u + v > 1
    u[w], v[w] = 1 - u[w], 1 - v[w]
    x = t[f]
    return x[:, 0] + u[:, None] * (x[:, 1] - x[:, 0]) + v[:, None] * (x[:, 2] - x[:, 0])


class Prov:
    def __init__(self, d):
        self.d, self.n = d, 0

    def get_geometry(self, name):
        self.n += 1
        return self.d.get(name)


def truth(A, Ta, B, Tb, R):
    pa, pb = planes(A, Ta), planes(B, Tb)
    sa, sb = sample(pa[3], pa[4], 3000, R), sample(pb[3], pb[4], 3000, R)
    da, db = depth(sb, pa[0], pa[1]), depth(sa, pb[0], pb[1])   # depth of B's surface in A, of A's in B
    frac = max((da > 1e-3).mean(), (db > 1e-3).mean())
    gap = sepgap(pa, pb)
    return frac, gap, max(da.max(), db.max()), pa, pb


def sepgap(pa, pb):
    """a lower bound for the distance: best separating direction among face normals and edge crosses"""
    va, vb = pa[2], pb[2]
    N = np.concatenate([pa[0], pb[0]])
    ea = np.concatenate([pa[3][:, 1] - pa[3][:, 0], pa[3][:, 2] - pa[3][:, 1]])[:60]
    eb = np.concatenate([pb[3][:, 1] - pb[3][:, 0], pb[3][:, 2] - pb[3][:, 1]])[:60]
    X = np.cross(ea[:, None, :], eb[None, :, :]).reshape(-1, 3)
    l = np.linalg.norm(X, axis=1)
    X = X[l > 1e-9] / l[l > 1e-9][:, None]
    D = np.concatenate([N, X, -X])
    return float(((vb @ D.T).min(0) - (va @ D.T).max(0)).max())


def g_pair(ctx, rng):
    A, B = convex(rng), convex(rng)
    sp = rng.choice([1, 3, 5, 8])
    Ta, Tb = pose(rng, sp), pose(rng, sp)
    seed = rng.randrange(2**31)
    R = np.random.RandomState(seed)
    if rng.random() < 0.15:      # containment
        B = A.copy()
        B.apply_translation(-B.center_mass)
        B.apply_scale(rng.uniform(0.2, 0.6))
        B.apply_translation(A.center_mass)
        Tb = Ta.copy()
    elif rng.random() < 0.35:    # just apart / slightly overlapping along a direction
        d = rot(rng)[0]
        pa, pb = planes(A, Ta), planes(B, Tb)
        Tb = Tb.copy()
        Tb[:3, 3] += d * ((pa[2] @ d).max() - (pb[2] @ d).min() + rng.choice([0.01, 0.2, 1.0, -0.5, -1.5]))
    frac, gap, maxd, pa, pb = truth(A, Ta, B, Tb, R)
    ctx.case(("pair", seed, round(frac, 6), round(gap, 6)))
    va, vb = A.vertices.copy(), B.vertices.copy()
    reg = CO.InterfaceRegistry()
    det = CO.CollisionDetector(Prov({"a": A, "b": B}), reg, mesh_sample_points=rng.choice([1500, 1500, 2500]))
    fmt = lambda T: rng.choice([T, T.tolist(), T.reshape(16), type("X", (), {"matrix": T})()])
    st = np.random.get_state()
    np.random.seed(seed)
    try:
        swap = rng.random() < 0.5
        r = det.check_collision("b", fmt(Tb), "a", fmt(Ta)) if swap else det.check_collision("a", fmt(Ta), "b", fmt(Tb))
        r2 = det.check_collision("a", fmt(Ta), "b", fmt(Tb))
    finally:
        np.random.set_state(st)
    info = dict(frac=frac, gap=gap, depth=maxd, seed=seed)
    ctx.ev("pair")
    ctx.check(np.array_equal(va, A.vertices) and np.array_equal(vb, B.vertices), "moved", "the provider's geometry was moved", info)
    ctx.check(not r.error_message and r.method == CO.CollisionMethod.MESH and (r.part_a, r.part_b) == (("b", "a") if swap else ("a", "b")), "result", lambda: f"{r}", info)
    ctx.check(isinstance(r.collides, bool), "bool", "collides is no bool", info)
    if frac >= 0.04 and maxd > 0.02:
        ctx.ev("overlap")
        if max((depth(pb[2], pa[0], pa[1])).min(), depth(pa[2], pb[0], pb[1]).min()) > 0:
            ctx.ev("contained")
        ctx.check(r.collides and r2.collides, "missed", lambda: f"overlap exposing {frac:.3f} of a surface, depth {maxd:.3f}, not reported", info)
        if r.collides:
            ctx.check(r.is_error and not r.is_interface_overlap, "excused", "overlap excused without interfaces", info)
            ctx.ev("depth")
            ctx.check(0.5 * maxd - 0.05 <= r.penetration_depth <= 1.5 * maxd + 0.5, "depth", lambda: f"penetration depth {r.penetration_depth}, deepest sampled {maxd}", info)
            ctx.check(len(r.contact_points) > 0, "contacts", "no contact points for a collision", info)
            if frac >= 0.04:
                for p in r.contact_points:
                    ctx.ev("contact")
                    P = np.array([p], dtype=float)
                    ctx.check(depth(P, pa[0], pa[1])[0] > -1e-4 and depth(P, pb[0], pb[1])[0] > -1e-4, "contact", "a contact point lies outside a part", info)
    elif gap > 1e-4:
        ctx.ev("apart")
        ctx.check(not r.collides and not r2.collides, "false", lambda: f"parts {gap:.4f} apart reported as colliding", info)
    # AABB
    ra = det.check_collision("a", Ta, "b", Tb, method=CO.CollisionMethod.AABB)
    lo = np.maximum(pa[2].min(0), pb[2].min(0))
    hi = np.minimum(pa[2].max(0), pb[2].max(0))
    if np.abs(hi - lo).min() > 1e-6:
        ctx.ev("aabb")
        ctx.check(ra.collides == bool((hi > lo).all()) and ra.method == CO.CollisionMethod.AABB, "aabb", lambda: f"AABB says {ra.collides}", info)
    try:
        json.dumps(r.to_dict())
    except TypeError as e:
        ctx.viol("json", f"to_dict is not JSON: {e}", info)


def g_aabb(ctx, rng):
    names = [f"p{i}" for i in range(rng.randint(2, 6))]
    geo = {n: convex(rng) for n in names}
    tf = {n: pose(rng, 8) for n in names}
    if rng.random() < 0.3:
        tf[names[0]] = None
    miss = {n for n in names if rng.random() < 0.08}
    badm = {n for n in names if rng.random() < 0.05}
    prov = Prov({n: (geo[n] if n not in miss else None) for n in names})
    if rng.random() < 0.1 and names:
        prov.d[names[-1]] = "/nonexistent/file.stl"
    bad_file = {n for n in names if isinstance(prov.d.get(n), str)}
    det = CO.CollisionDetector(prov)
    det._has_mesh = det._has_mesh
    skip = [tuple(rng.sample(names, 2)) for _ in range(rng.randint(0, 3))] if len(names) > 1 else []
    w = {n: (np.eye(3) if n in badm else tf[n]) for n in names}
    ctx.case(("asm", tuple(names), tuple(sorted(miss)), tuple(skip), rng.random()))
    real = det.check_collision
    det.check_collision = lambda a, ta, b, tb: real(a, ta, b, tb, method=CO.CollisionMethod.AABB)
    res = det.check_assembly(w, skip_pairs=skip if rng.random() < 0.8 or skip else None)
    ctx.ev("assembly")
    want = [(a, b) for i, a in enumerate(names) for b in names[i + 1:] if (a, b) not in skip and (b, a) not in skip]
    ctx.check([r.pair_key for r in res] == [tuple(sorted(p)) for p in want], "pairs", lambda: f"pairs {[r.pair_key for r in res]}, expected {want}", {})
    for r in res:
        a, b = r.part_a, r.part_b
        err = {a, b} & (miss | badm | bad_file)
        if err:
            ctx.ev("error")
            ctx.check(r.error_message and not r.collides and not r.is_error, "error", lambda: f"missing geometry or bad matrix: {r}", {})
            continue
        I = np.eye(4)
        va, vb = [planes(geo[n], I if tf[n] is None else tf[n])[2] for n in (a, b)]
        lo, hi = np.maximum(va.min(0), vb.min(0)), np.minimum(va.max(0), vb.max(0))
        if np.abs(hi - lo).min() > 1e-6:
            ctx.ev("aabb")
            ctx.check(r.collides == bool((hi > lo).all()), "aabb", lambda: f"AABB {a},{b}: {r.collides}", {})
    s = det.get_collision_summary(res)
    ctx.ev("summary")
    c = [r for r in res if r.collides]
    e = [r for r in c if not r.compatible_interface]
    ok = (s["total_pairs"], s["collisions_detected"], s["actual_errors"], s["expected_interfaces"], s["detection_failures"]) == (len(res), len(c), len(e), len(c) - len(e), len([r for r in res if r.error_message]))
    ok = ok and s["error_pairs"] == [(r.part_a, r.part_b) for r in e] and s["interface_pairs"] == [(r.part_a, r.part_b) for r in c if r.compatible_interface]
    ctx.check(ok, "summary", lambda: f"summary {s}", {})
    # cache
    k = prov.n
    det.check_assembly(w)
    n1 = prov.n
    det.clear_cache()
    new = trimesh.creation.box([1000, 1000, 1000])
    good = [n for n in names if n not in miss | badm | bad_file]
    if len(good) >= 2:
        prov.d[good[0]] = new
        r = real(good[0], tf[good[0]], good[1], tf[good[1]], method=CO.CollisionMethod.AABB)
        ctx.check(r.collides, "cache", "clear_cache() did not forget the old geometry", {})


def riface(rng, name, part, spread=10, uni=False):
    c = tuple(rng.uniform(-spread, spread) for _ in range(3))
    ax = rng.choice([(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (0.0, 0.0, 2.5), (1.0, 0.0, 0.0), (0.6, 0.8, 0.0), tuple(rng.gauss(0, 1) for _ in range(3))])
    if uni and rng.random() < 0.95:
        return CO.GearMeshInterface(name=name, part_name=part, module=1.0, teeth=rng.randint(8, 30), face_width=10.0, center=c, axis=(0.0, 0.0, 1.0))
    if rng.random() < 0.5:
        m = rng.choice([0.75, 1.0, 1.0, 1.0005, 1.01, 2.0])
        pa = rng.choice([20.0, 20.0, 20.4, 20.6, 14.5])
        return CO.GearMeshInterface(name=name, part_name=part, module=m, teeth=rng.randint(8, 30), pressure_angle=pa, face_width=rng.choice([0.5, 5.0, 10.0]), helix_angle=rng.choice([0.0, 15.0, -15.0]), backlash=rng.choice([0.0, 0.05]), center=c, axis=ax)
    d = rng.choice([3.0, 3.0, 3.002, 4.0, 10.0])
    return CO.ThreadInterface(name=name, part_name=part, pitch=rng.choice([0.5, 0.5, 0.5004, 0.7]), major_diameter=d, engagement_length=rng.choice([4.0, 12.0]), is_internal=rng.random() < 0.5, center=c, axis=ax)


def cyl(i):
    if isinstance(i, CO.GearMeshInterface):
        return (i.module * i.teeth / 2 + i.module, i.face_width)
    return (i.major_diameter / 2, i.engagement_length)


def near(a, b):
    return abs(a - b) < 1e-9


def compat(a, b):
    """None if too close to a tolerance to judge"""
    if type(a) is not type(b):
        return False
    if isinstance(a, CO.GearMeshInterface):
        dm, dp = abs(a.module - b.module), abs(a.pressure_angle - b.pressure_angle)
        lim = [a.module * 0.001, b.module * 0.001]
        if any(abs(dm - l) < 1e-7 for l in lim) or abs(dp - 0.5) < 1e-7:
            return None
        if (dm > lim[0]) != (dm > lim[1]):
            return None
        return dm <= lim[0] and dp <= 0.5
    dd, dp = abs(a.major_diameter - b.major_diameter), abs(a.pitch - b.pitch)
    return a.is_internal != b.is_internal and dd <= a.major_diameter * 0.001 and dp <= a.pitch * 0.001


def spatial(a, b):
    (r1, h1), (r2, h2) = cyl(a), cyl(b)
    u = np.array(a.axis) / np.linalg.norm(a.axis)
    v = np.array(b.axis) / np.linalg.norm(b.axis)
    c = np.array(b.center) - np.array(a.center)
    dot = abs(u @ v)
    if abs(dot - 0.99) < 1e-3:
        return None
    if dot < 0.99:
        e = r1 + r2 + 0.1 - np.linalg.norm(c)
        return None if abs(e) < 1e-6 else e > 0
    ax = abs(c @ u)
    rad = np.linalg.norm(c - (c @ u) * u)
    e = min(h1 / 2 + h2 / 2 + 0.1 - ax, r1 + r2 + 0.1 - rad)
    if dot < 1 - 1e-12 and abs(e) < 3:
        return None
    return None if abs(e) < 1e-6 else bool(e > 0)


def g_registry(ctx, rng):
    reg, model = CO.InterfaceRegistry(), {}
    parts = ["P", "Q", "R"]
    box = {p: trimesh.creation.box([4, 4, 4]) for p in parts}
    late = rng.random() < 0.5
    det = CO.CollisionDetector(Prov(box), reg) if late else CO.CollisionDetector(Prov(box))
    if not late:
        det.set_interface_registry(reg)
    spread = rng.choice([3, 8, 15, 25])
    uni = rng.random() < 0.5
    for step in range(rng.randint(5, 25)):
        op = rng.choice(["add", "add", "add", "del", "query", "query", "excuse", "many", "clear" if rng.random() < 0.1 else "query"])
        ctx.case(("reg", op, step, rng.random()))
        ctx.ev("registry")
        if op == "add":
            n = f"i{rng.randrange(12)}"
            i = riface(rng, n, rng.choice(parts), spread, uni)
            try:
                reg.register(i)
                ok = True
            except ValueError:
                ok = False
                ctx.ev("reg:refused")
            ctx.check(ok == (n not in model), "register", "duplicate name accepted or new name refused", {})
            if ok:
                model[n] = i
        elif op == "many":
            ns = [f"m{step}_{k}" for k in range(3)]
            li = [riface(rng, n, rng.choice(parts), spread, uni) for n in ns]
            reg.register_many(li)
            model.update(zip(ns, li))
        elif op == "del":
            n = f"i{rng.randrange(12)}"
            got = reg.unregister(n)
            ctx.check(got is model.pop(n, None), "unregister", "unregister returned something else", {})
        elif op == "clear":
            reg.clear()
            model.clear()
        elif op == "excuse":
            a, b = rng.sample(parts, 2)
            rr = det.check_collision(a, np.eye(4), b, np.eye(4), method=CO.CollisionMethod.AABB)
            w, names = expect(model, a, b)
            ctx.check(rr.collides, "excuse:collide", "identical boxes do not collide", {})
            if w is not None:
                ctx.ev("excused" if w else "notexcused")
                if late:
                    ctx.ev("late")
                ctx.check(rr.compatible_interface == w and rr.is_error == (not w), "excuse", lambda: f"overlap of {a} and {b}: excused={rr.compatible_interface}, expected {w}; interfaces {[(i.name, i.part_name) for i in model.values()]}", {})
                ctx.check(sorted(rr.interface_names) == sorted(names), "excuse:names", lambda: f"interface names {rr.interface_names}, expected {names}", {})
        # state
        ctx.check(len(reg) == len(model) and reg.get_all_interfaces() == list(model.values()) and list(reg) == list(model.values()), "content", "the registry's content differs from what was registered", {})
        for p in parts + ["none"]:
            want = [i for i in model.values() if i.part_name == p]
            ctx.check(reg.get_interfaces_for_part(p) == want and reg.has_interfaces(p) == bool(want), "bypart", f"interfaces of part {p} wrong", {})
        for t in (CO.InterfaceType.GEAR_MESH, CO.InterfaceType.THREAD, CO.InterfaceType.KEY):
            ctx.check(reg.get_interfaces_by_type(t) == [i for i in model.values() if i.interface_type == t], "bytype", "interfaces by type wrong", {})
        n = f"i{rng.randrange(12)}"
        ctx.check(reg.get(n) is model.get(n) and (n in reg) == (n in model), "get", "get() wrong", {})
        ctx.check(sorted(reg.get_all_parts()) == sorted({i.part_name for i in model.values()}), "parts", "get_all_parts wrong", {})
        if model:
            i = rng.choice(list(model.values()))
            w = [compat(i, o) for o in model.values() if o.name != i.name]
            if None not in w:
                got = reg.find_compatible_interfaces(i)
                ctx.check([g[0].name for g in got] == [o.name for o, c in zip([o for o in model.values() if o.name != i.name], w) if c], "find", "find_compatible_interfaces wrong", {})
    ctx.check([d["name"] for d in reg.to_dict()["interfaces"]] == list(model), "todict", "to_dict lists other interfaces", {})


def expect(model, a, b):
    A = [i for i in model.values() if i.part_name == a]
    B = [i for i in model.values() if i.part_name == b]
    cs, names = [], set()
    for x in A:
        for y in B:
            s = spatial(x, y)
            if s is None:
                return None, None
            if s:
                c = compat(x, y)
                if c is None:
                    return None, None
                cs.append(c)
                if c:
                    names |= {x.name, y.name}
    ok = bool(cs) and all(cs)
    return ok, (names if ok else set())


def g_iface(ctx, rng):
    a, b = riface(rng, "a", "A", 6), riface(rng, "b", "B", 6)
    if rng.random() < 0.4:
        b = type(a)(**{k: v for k, v in a.__dict__.items() if k not in ("interface_type", "name", "part_name", "center", "description")}, name="b", part_name="B", center=b.center)
        if isinstance(b, CO.ThreadInterface):
            b.is_internal = rng.random() < 0.7 and not a.is_internal
    ctx.case(("iface", repr(a), repr(b)))
    w = compat(a, b)
    if w is not None:
        r, q = a.check_compatibility(b), b.check_compatibility(a)
        ctx.ev("compat")
        ctx.ev("compat:yes", int(w))
        ctx.check(r.is_compatible == w and q.is_compatible == w and r.reason, "compat", lambda: f"{a} and {b}: {r}, expected {w}", {})
        if w and isinstance(a, CO.ThreadInterface):
            e = min(a.engagement_length, b.engagement_length)
            R, r0 = a.major_diameter / 2, (a.major_diameter - 1.0825 * a.pitch) / 2
            ctx.check(abs(r.overlap_volume - math.pi * (R * R - r0 * r0) * e) < 1e-9 * (1 + r.overlap_volume), "volume", "thread overlap volume wrong", {})
        if w and isinstance(a, CO.GearMeshInterface):
            ctx.check(r.required_clearance == a.backlash, "backlash", "required clearance is not the backlash", {})
            cd = (a.module * a.teeth + b.module * b.teeth) / 2
            ctx.check(near(a.get_center_distance(b), cd), "center", "centre distance wrong", {})
            off = rng.choice([0.0, 0.05, -0.05, 0.2, -0.3])
            m = CO.check_gear_mesh_collision(a, b, cd + off)
            ctx.check(m.is_compatible == (abs(off) < 0.1), "mesh", lambda: f"centre distance off by {off}: {m}", {})
        elif isinstance(a, CO.GearMeshInterface) and isinstance(b, CO.GearMeshInterface):
            ctx.check(not CO.check_gear_mesh_collision(a, b, 1.0).is_compatible, "mesh", "incompatible gears mesh", {})
            if abs(a.module - b.module) > 0.002 * max(a.module, b.module):
                try:
                    a.get_center_distance(b)
                    ctx.viol("center", "centre distance of different modules given", {})
                except ValueError:
                    pass
    s = spatial(a, b)
    if s is not None:
        ctx.ev("overlaps")
        ctx.ev("overlaps:yes", int(s))
        ctx.check(a.overlaps_with(b) == s and b.overlaps_with(a) == s, "overlaps", lambda: f"overlaps_with: {a.overlaps_with(b)}, {b.overlaps_with(a)}, expected {s}", {"a": repr(a), "b": repr(b)})
    T = pose(rng, 20)
    c = np.array(a.transform_center(rng.choice([T, T.tolist()])))
    x = np.array(a.transform_axis(T))
    u = np.array(a.axis) / np.linalg.norm(a.axis)
    ctx.ev("transform")
    ctx.check(np.allclose(c, T[:3, :3] @ np.array(a.center) + T[:3, 3], atol=1e-9) and np.allclose(x, T[:3, :3] @ u, atol=1e-9), "transform", "transformed centre or axis wrong", {})
    for i in (a, b):
        d = i.to_dict()
        json.dumps(d)
        rad, h = i.get_bounding_cylinder()
        ctx.check(near(rad, cyl(i)[0]) and h == cyl(i)[1] == i.get_engagement_depth(), "cylinder", "bounding cylinder wrong", {})
        if isinstance(i, CO.GearMeshInterface):
            pd = i.module * i.teeth
            w = dict(pitch_diameter=pd, outside_diameter=pd + 2 * i.module, root_diameter=pd - 2.5 * i.module, base_diameter=pd * math.cos(math.radians(i.pressure_angle)))
        else:
            w = dict(minor_diameter=i.major_diameter - 1.0825 * i.pitch, pitch_diameter=i.major_diameter - 0.6495 * i.pitch, is_internal=i.is_internal)
        ctx.check(all(near(d[k], v) and near(getattr(i, k), v) for k, v in w.items()) and d["center"] == list(i.center) and d["name"] == i.name, "formula", lambda: f"dimensions {d}, expected {w}", {})


COARSE = {"M1.6": 0.35, "M2": 0.4, "M2.5": 0.45, "M3": 0.5, "M3.5": 0.6, "M4": 0.7, "M5": 0.8, "M6": 1.0, "M8": 1.25, "M10": 1.5, "M12": 1.75, "M14": 2.0, "M16": 2.0, "M20": 2.5, "M24": 3.0, "M30": 3.5}


def g_sets(ctx, rng):
    # planetary gear sets
    m, s, p, n = rng.choice([0.75, 1.0, 2.5]), rng.randint(10, 40), rng.randint(10, 40), rng.randint(1, 6)
    z, fw = rng.uniform(-5, 5), rng.uniform(2, 12)
    li = CO.create_planetary_gearbox_interfaces("G", m, s, p, s + 2 * p, fw, num_planets=n, mesh_plane_z=z)
    ctx.ev("planetary")
    ctx.case(("planetary", m, s, p, n))
    ok = len(li) == n + 2 and len({i.name for i in li}) == n + 2 and len({i.part_name for i in li}) == n + 2
    sun, ring, pl = li[0], li[1], li[2:]
    R = (s + p) * m / 2
    ok = ok and sun.teeth == s and ring.teeth == s + 2 * p and all(i.teeth == p for i in pl) and all(i.module == m and i.face_width == fw and abs(i.center[2] - z) < 1e-9 for i in li)
    for k, i in enumerate(pl):
        a = 2 * math.pi * k / n
        ok = ok and abs(i.center[0] - R * math.cos(a)) < 1e-9 and abs(i.center[1] - R * math.sin(a)) < 1e-9
        ok = ok and abs(math.hypot(i.center[0], i.center[1]) - sun.get_center_distance(i)) < 1e-9
    ctx.check(ok, "planetary", lambda: f"planetary set m={m} sun={s} planet={p} n={n}: {[(i.name, i.teeth, i.center) for i in li]}", {})
    reg = CO.InterfaceRegistry()
    reg.register_many(li)
    ctx.check(all(reg.check_overlap_compatibility(sun.part_name, i.part_name)[0] and reg.check_overlap_compatibility(i.part_name, ring.part_name)[0] for i in pl), "planetary:mesh", "a planet does not mesh with sun and ring", {})
    # threads
    size = rng.choice(list(COARSE) + ["m3", "M7", "M4x0.5", "m10x1.25"])
    t = CO.ThreadInterface.from_metric_size(size, part_name="P", is_internal=rng.random() < 0.5)
    u = size.upper()
    dia = float(u.split("X")[0][1:])
    ok = t.major_diameter == dia and abs(t.engagement_length - 1.5 * dia) < 1e-9
    if "X" in u:
        ok = ok and t.pitch == float(u.split("X")[1])
    elif u in COARSE:
        ok = ok and t.pitch == COARSE[u]
    ctx.check(ok, "metric", lambda: f"{size}: {t}", {})
    pos = [tuple(rng.uniform(-50, 50) for _ in range(3)) for _ in range(rng.randint(0, 6))]
    L = rng.choice([None, 7.5])
    bl = TI.create_bolt_pattern_interfaces("B", "BR", "BASE", "M4", pos, engagement_length=L)
    ctx.ev("bolts")
    ok = len(bl) == 2 * len(pos) and len({i.name for i in bl}) == len(bl)
    for k, q in enumerate(pos):
        b, h = bl[2 * k], bl[2 * k + 1]
        ok = ok and b.center == q == h.center and (b.part_name, h.part_name, b.is_internal, h.is_internal) == ("BR", "BASE", False, True) and b.check_compatibility(h).is_compatible and b.engagement_length == (L or 6.0) and b.pitch == 0.7
    ctx.check(ok, "bolts", "bolt pattern interfaces wrong", {})
    # results
    r = CO.CollisionResult(part_a=rng.choice(["b", "a"]), part_b="aa", collides=rng.random() < 0.5, method=rng.choice(list(CO.CollisionMethod)), intersection_volume=rng.choice([None, 2.5]), penetration_depth=rng.choice([0.0, 1.25]),
                           contact_points=[(1.0, 2.0, 3.0)] * rng.randint(0, 2), compatible_interface=rng.random() < 0.5, interface_names=rng.choice([[], ["x", "y"]]), error_message=rng.choice(["", "bad"]), metadata={"k": 1})
    ctx.ev("result")
    q = CO.CollisionResult.from_dict(json.loads(json.dumps(r.to_dict())))
    ctx.check(q == r, "result:roundtrip", lambda: f"{r.to_dict()} came back as {q.to_dict()}", {})
    ctx.check(r.is_error == (r.collides and not r.compatible_interface) and r.is_interface_overlap == (r.collides and r.compatible_interface) and r.pair_key == tuple(sorted([r.part_a, r.part_b])), "result:flags", "is_error, is_interface_overlap or pair_key wrong", {})
    st = str(r)
    want = "[ERROR]" if r.error_message else "[OK]" if not r.collides else "[INTERFACE]" if r.compatible_interface else "[COLLISION]"
    ctx.check(st.startswith(want), "result:str", lambda: f"{st!r}, expected {want}", {})


GROUPS = {"pair": (g_pair, 240, 4000), "aabb": (g_aabb, 150, 2500), "registry": (g_registry, 400, 8000), "iface": (g_iface, 3000, 40000), "sets": (g_sets, 400, 4000)}

if __name__ == "__main__":
    vf.main(globals())
