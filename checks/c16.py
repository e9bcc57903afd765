import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json
import numpy as np
import vf

PROP = "C16"
LEVEL = "exploration"
META = dict(
    title="Geometry JSON documents hold the whole geometry and read back equal",
    statement="geometry_to_json of any mix of solids, surfaces and sketches yields a document that json can write and geometry_from_json rebuilds, in order solids, stand-alone surfaces, sketches: every solid with the same shell and void surfaces, every surface with bit-equal vertices, normals and faces, every sketch with equal points, lines, arcs (orientation and plane included), ellipses, conics and splines (polylines as their segments; nested lists flattened). Entity ids are unique and agree with metadata.entityId, shells and voids refer only to surfaces of the document, each surface belongs to one solid or stands alone; bounding boxes contain the geometry exactly. Tags, names, layers and namespaces survive the trip, caller metadata reaches the solid and its surfaces, a solid's layer reaches surfaces without one. The document does not share metadata with the live objects and serializing changes no geometry; a repeated trip is stable. A wrong schema, an id-less entity, a missing surface or a non-geometry object is refused.",
    over=["inputs", "histories"], q="for all lists of entities, metadata and operation histories",
    why="Tests round-trip a cube and one sketch; lost primitives, colliding ids of transformed copies or live caches only show for particular mixes and histories.",
    files=["src/yapcad/io/geometry_json.py", "src/yapcad/metadata.py"],
    mech=[("geometry_to_json, geometry_from_json", "src/yapcad/io/geometry_json.py"), ("_serialize_solid, _serialize_sketch", "src/yapcad/io/geometry_json.py")],
    technique="round-trip monitor through json text with an independent reader of the document (referential integrity, boxes, metadata propagation) over random documents and operation histories",
    note="Exploration. Boundary/hole index lists of surfaces and the construction record of solids are not part of the format (documented schema) and not compared; OCC BREP payloads need pythonocc.",
)
RULE = "random documents of 1-5 solids/surfaces/sketches, with metadata and after copies, transforms, containment tests; distinct by the entity kinds and first coordinates"
REQUIRE = {"docs": 100, "solids": 100, "surfaces": 50, "sketches": 80, "prims": 300, "refusals": 20, "copies": 30}


def init():
    global g, g3, J, md, M, gen3, G
    from yapcad import geom as g, geom3d as g3, metadata as md
    from yapcad.io import geometry_json as J
    import mesh3 as M, gen3, gen2d as G


def prim(rng):
    R = rng.uniform
    z = rng.choice([0, 0, R(-3, 3)])
    p = lambda: g.point(R(-9, 9), R(-9, 9), z)
    k = rng.randrange(13)
    if k == 0:
        return p()
    if k == 1:
        return [p(), p()]
    if k == 2:
        return [p() for _ in range(rng.randint(3, 6))]
    if k == 3:
        return g.arc(p(), R(.1, 5)) if rng.random() < .6 else g.arc(p(), g.vect(R(.1, 5), 0, 360, -2), samplereverse=True)
    if k in (4, 5):
        a = g.arc(p(), R(.1, 5), R(0, 360), R(0, 360), samplereverse=rng.random() < .5)
        return a
    if k == 6:
        a = [R(-1, 1) for _ in range(3)]
        n = g.vect(*[x / sum(y * y for y in a) ** .5 for x in a], 1)
        n[3] = 1
        return g.arc(p(), g.vect(R(.1, 5), 10, 200, -1), samplereverse=rng.random() < .5)
    if k == 7:
        b = R(.1, 3)
        return g.ellipse(p(), b * R(1, 3), b, rotation=R(0, 360), **rng.choice([{}, dict(start=R(0, 180), end=R(181, 350))]))
    pts = [p() for _ in range(rng.randint(4, 7))]
    if k == 8:
        return g.catmullrom(pts, closed=rng.random() < .5, alpha=rng.choice([0.0, .5, 1.0]))
    if k == 9:
        d = rng.randint(1, 3)
        return g.nurbs(pts, degree=d, weights=rng.choice([None, [R(.5, 2) for _ in pts]]))
    if k == 10:
        return g.bezier(pts)
    if k == 11:
        return g.bspline(pts, degree=rng.randint(1, 3), closed=rng.random() < .3)
    if rng.random() < .5:
        return g.parabola(p(), R(.2, 3), rotation=R(0, 360), start=R(-5, 0), end=R(.1, 5))
    return g.hyperbola(p(), R(.2, 3), R(.2, 3), rotation=R(0, 360), start=R(-2, 0), end=R(.1, 2), branch=rng.choice([1, -1]))


def sketch(rng):
    L = [prim(rng) for _ in range(rng.randint(1, 5))]
    if rng.random() < .3:
        i = rng.randrange(len(L) + 1)
        L.insert(i, [prim(rng), [prim(rng)]])
    if rng.random() < .2:       # the same figure twice
        L.append(copy.deepcopy(rng.choice(L)))
    # avoid lists that *are* a point list (a polygon) or a line by accident
    if all(g.ispoint(x) for x in flat_raw(L)):
        L.append(g.arc(g.point(0, 0), 1.0))
    if len(L) == 1 and rng.random() < .3:
        e = L[0]
        if not g.ispoint(e):
            return e
    return L


def flat_raw(L):
    if g.ispoint(L) or G.is_line(L) or G.is_arc(L) or isinstance(L[0], str):
        return [L]
    if G.is_poly(L):
        return [L]
    out = []
    for x in L:
        out += flat_raw(x)
    return out


def flat(L):
    """expected elements after the trip"""
    out = []
    for e in flat_raw(L):
        if G.is_poly(e):
            out += [[e[i], e[i + 1]] for i in range(len(e) - 1)]
        else:
            out.append(e)
    return out


def same(a, b):
    """equal up to int/float"""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str) or a is None:
        return a == b
    return isinstance(b, (int, float)) and a == b


def history(ctx, rng, s):
    """operations a user does before saving: identity, containment cache, boolean cache"""
    k = rng.randrange(4)
    if k == 1:
        lo, hi = M.box(M.tris(s))
        g3.issolidclosed(s)
        p = g.point(*[(lo[i] + hi[i]) / 2 for i in range(3)])
        try:
            from yapcad.geom3d import solid_contains_point
            solid_contains_point(s, p)
        except Exception:
            pass
        for sf in s[1]:
            g3.surface_octree(sf)
        ctx.ev("histories")
    elif k == 2:
        md.ensure_solid_id(s)
        for sf in s[1]:
            md.ensure_surface_id(sf)
        ctx.ev("histories")
    return s


def randmeta(rng):
    o = {}
    if rng.random() < .6:
        o["layer"] = rng.choice(["base", "lid", "x y"])
    if rng.random() < .5:
        o["tags"] = [rng.choice(["a", "ß", "c,d"])]
    if rng.random() < .4:
        o["name"] = rng.choice(["part", 'q"uo\\te', "é"])
    if rng.random() < .3:
        o["material"] = {"name": "alu", "density": rng.uniform(1, 9)}
    if rng.random() < .2:
        o["entityId"] = f"caller-{rng.randrange(10**6)}"
    return o


def build(ctx, rng):
    """[(entity, kind, override or None)]"""
    out, base = [], []
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(5)
        if k <= 1:
            s = gen3.solid(rng)
            history(ctx, rng, s)
            if rng.random() < .3:
                md.set_layer(md.get_solid_metadata(s, create=True), "mine")
            base.append(s)
            out.append([s, "solid", None])
            if rng.random() < .4:
                c = rng.choice([lambda: copy.deepcopy(s), lambda: g3.translatesolid(s, g.point(20, 0, 1)), lambda: g3.rotatesolid(s, 33.0), lambda: s])()
                out.append([c, "solid", None])
                ctx.ev("copies")
        elif k == 2:
            s = gen3.surf(rng)
            if rng.random() < .3:
                md.ensure_surface_id(s)
            out.append([s, "surface", None])
            if rng.random() < .4:
                out.append([g3.translatesurface(s, g.point(1, 2, 3)), "surface", None])
                ctx.ev("copies")
        else:
            out.append([sketch(rng), "sketch", None])
    rng.shuffle(out)
    n = 0
    for o in out:
        if rng.random() < .4:
            o[2] = randmeta(rng)
            if "entityId" in o[2]:
                n += 1
                o[2]["entityId"] += f"-{n}"
    return out


def strip(s):
    """geometry only"""
    if s[0] == "solid":
        return [[strip(x) for x in s[1]], [[strip(x) for x in v] for v in s[2] or [] if isinstance(v, list) and v]]
    return [s[1], s[2], s[3]]


def readdoc(ctx, D, E, tag):
    """independent check of the document itself"""
    by = {}
    for e in D["entities"]:
        if e["id"] in by:
            ctx.viol("ids:duplicate", f"{tag}: id {e['id']} used by a {by[e['id']]['type']} and a {e['type']}", e["id"])
        by[e["id"]] = e
        if e["metadata"].get("entityId") != e["id"]:
            ctx.viol("ids:entityId", f"{tag}: {e['type']} id {e['id']} but metadata.entityId {e['metadata'].get('entityId')}")
        if not e["metadata"].get("layer"):
            ctx.viol("meta:layer", f"{tag}: {e['type']} has no layer")
        if any(str(k).startswith("_") for k in e["metadata"]):
            ctx.viol("meta:cache", f"{tag}: {e['type']} stores cache {list(e['metadata'])}")
    used = {}
    for e in D["entities"]:
        if e["type"] == "solid":
            for sid in e["shell"] + [x for v in e["voids"] for x in v]:
                if sid not in by or by[sid]["type"] != "surface":
                    ctx.viol("refs:dangling", f"{tag}: solid refers to {sid}")
                if sid in used:
                    ctx.viol("refs:shared", f"{tag}: surface {sid} belongs to two solids or shells")
                used[sid] = e
    def bx(e):
        T = np.array([v[:3] for v in e["vertices"]])
        return T.min(0), T.max(0)
    for e in D["entities"]:
        b = e["boundingBox"]
        if e["type"] == "surface":
            bs = [e]
        elif e["type"] == "solid":
            bs = [by[s] for s in e["shell"] if s in by]
        else:
            continue
        if b is None:
            ctx.viol("box:missing", f"{tag}: {e['type']} without boundingBox")
            continue
        lo = np.min([bx(x)[0] for x in bs], 0)
        hi = np.max([bx(x)[1] for x in bs], 0)
        if np.abs(np.array(b) - np.concatenate([lo, hi])).max() > 1e-9 + 2e-5:
            ctx.viol("box:wrong", f"{tag}: {e['type']} boundingBox {b} but vertices span {lo} {hi}")
        ctx.ev("boxes")
    return by, used


def g_trip(ctx, rng):
    ents = build(ctx, rng)
    ctx.case([(k, str(strip(e) if k != 'sketch' else e)[:60]) for e, k, _ in ents])
    before = [copy.deepcopy(strip(e)) if k != "sketch" else copy.deepcopy(e) for e, k, _ in ents]
    layers = [md.get_solid_metadata(e, create=True).get("layer") if k == "solid" else None for e, k, _ in ents]
    form = rng.randrange(2)
    arg = [e if m is None else ((e, dict(m)) if form else {"geometry": e, "metadata": dict(m)}) for e, k, m in ents]
    kw = {}
    if rng.random() < .5:
        kw = dict(units="mm", generator={"name": "t"}, relationships=[{"type": "mated"}], attachments=[{"p": 1}])
    D = J.geometry_to_json(arg, **kw)
    text = json.dumps(D, allow_nan=False)
    D2 = json.loads(text)
    ctx.ev("docs")
    for k, v in kw.items():
        ctx.check(D2.get(k) == v, "doc:field", f"{k} is {D2.get(k)!r}", k)
    for (e, k, m), b in zip(ents, before):
        now = strip(e) if k != "sketch" else e
        ctx.check(now == b, "input:changed", f"serializing changed the {k}'s geometry")
    by, used = readdoc(ctx, D2, ents, "first")
    # entity order and metadata
    sol = [e for e in D2["entities"] if e["type"] == "solid"]
    skt = [e for e in D2["entities"] if e["type"] == "sketch"]
    frs = [e for e in D2["entities"] if e["type"] == "surface" and e["id"] not in used]
    want = {"solid": [x for x in ents if x[1] == "solid"], "surface": [x for x in ents if x[1] == "surface"], "sketch": [x for x in ents if x[1] == "sketch"]}
    got = {"solid": sol, "surface": frs, "sketch": skt}
    for k in want:
        ctx.check(len(want[k]) == len(got[k]), f"count:{k}", f"{len(want[k])} {k} entities became {len(got[k])}", [x[1] for x in ents])
    laid = {id(e): l for (e, k, m), l in zip(ents, layers)}
    multi = {id(e) for e, k, m in ents if sum(1 for x in ents if x[0] is e) > 1}
    for k in want:
        if len(want[k]) != len(got[k]):
            continue
        for (e, _, m), d in zip(want[k], got[k]):
            if id(e) in multi:
                continue
            for key, v in (m or {}).items():
                if key == "entityId" and k == "surface":
                    continue
                ctx.check(d["metadata"].get(key) == v, "meta:override", f"{k} metadata {key}={v!r} became {d['metadata'].get(key)!r}", m)
            if m and "name" in m and k != "sketch":
                ctx.check(d["name"] == m["name"], "meta:name", f"{d['name']!r}")
            if k == "solid":
                lay = (m or {}).get("layer") or laid[id(e)] or "default"
                ctx.check(d["metadata"]["layer"] == lay, "meta:solidlayer", f"{lay} became {d['metadata']['layer']}")
                for sid in d["shell"]:
                    sd = by[sid]["metadata"]
                    ctx.check(sd["layer"] == lay, "meta:surfacelayer", f"surface layer {sd['layer']} of a solid on {lay}")
                    for key, v in (m or {}).items():
                        if key != "entityId":
                            ctx.check(sd.get(key) == v, "meta:surfaceoverride", f"surface {key} {sd.get(key)!r} not {v!r}")
            ctx.ev("metas")
    # live objects are not aliased
    for e, k, m in ents:
        if k == "solid":
            live = md.get_solid_metadata(e, create=True)
        elif k == "surface":
            live = md.get_surface_metadata(e, create=True)
        else:
            continue
        live.setdefault("tags", []).append("AFTER")
        live["AFTER"] = 1
        live.setdefault("material", {})["AFTER"] = 1
    ctx.check(json.dumps(D, allow_nan=False) == text, "alias:metadata", "changing the objects' metadata afterwards changed the document")
    # read back
    R = J.geometry_from_json(copy.deepcopy(D2))
    ctx.check(len(R) == len(ents), "back:count", f"{len(ents)} entities came back as {len(R)}", [x[1] for x in ents])
    if len(R) != len(ents):
        return
    order = want["solid"] + want["surface"] + want["sketch"]
    for r, (e, k, m), d in zip(R, order, sol + frs + skt):
        if k == "solid":
            ctx.ev("solids")
            ctx.check(g3.issolid(r), "back:kind", f"a solid came back as {r[0]}")
            ctx.check(strip(r) == strip(e) or same(strip(r), strip(e)), "back:solid", "solid geometry differs after the trip", d["id"])
            meta = md.get_solid_metadata(r, create=True)
            ctx.check(all(meta.get(q) == v for q, v in d["metadata"].items()), "back:meta", f"{meta} / {d['metadata']}")
        elif k == "surface":
            ctx.ev("surfaces")
            ctx.check(g3.issurface(r, fast=False), "back:kind", f"a surface came back as {r[0]}")
            ctx.check(same(strip(r), strip(e)), "back:surface", "surface geometry differs after the trip", d["id"])
            meta = md.get_surface_metadata(r, create=True)
            ctx.check(all(meta.get(q) == v for q, v in d["metadata"].items()), "back:meta", f"{meta} / {d['metadata']}")
        else:
            ctx.ev("sketches")
            W = flat(e)
            ok = len(r) == len(W)
            ctx.check(ok, "back:sketchcount", f"{len(W)} elements came back as {len(r)}", e)
            for a, b in zip(W, r):
                ctx.ev("prims")
                if not same(a, b):
                    ctx.viol("back:prim", f"{a} came back as {b}", e)
            b = d["boundingBox"]
            if b:
                for pl in d["polylines"]:
                    for q in pl:
                        tol = .05 + .06 * (b[2] - b[0] + b[3] - b[1])   # splines are boxed by sampling
                        if not (b[0] - tol <= q[0] <= b[2] + tol and b[1] - tol <= q[1] <= b[3] + tol):
                            ctx.viol("box:sketch", f"sketch box {b} misses {q}", e)
    # stable: a second trip of what came back
    D3 = J.geometry_to_json(R)
    readdoc(ctx, D3, None, "second")
    core = lambda X: [[e.get(q) for q in ("type", "id", "vertices", "normals", "faces", "shell", "voids")] for e in X["entities"] if e["type"] != "sketch"]
    pr = lambda X: [e["primitives"] for e in X["entities"] if e["type"] == "sketch"]
    a, b = sorted(map(str, core(D2))), sorted(map(str, core(D3)))
    ctx.check(a == b, "stable:entities", "the second trip differs from the first")
    if not any(p["kind"] == "polyline" for e in skt for p in e["primitives"]):
        ctx.check(pr(D2) == pr(json.loads(json.dumps(D3))), "stable:prims", "sketch primitives differ in the second trip")


def g_void(ctx, rng):
    """solids with cavities given as void shells"""
    a, b = gen3.solid(rng), gen3.solid(rng)
    s = ["solid", a[1], [b[1]] if rng.random() < .7 else [b[1], gen3.solid(rng)[1]], []]
    ctx.case(str(s[1][0][1][:2]))
    D = json.loads(json.dumps(J.geometry_to_json([s]), allow_nan=False))
    readdoc(ctx, D, None, "void")
    R = J.geometry_from_json(D)
    ctx.check(len(R) == 1 and same(strip(R[0]), strip(s)), "back:void", "cavities differ after the trip")
    ctx.ev("voids")


def g_refuse(ctx, rng):
    D = J.geometry_to_json([gen3.solid(rng), sketch(rng)])
    D = json.loads(json.dumps(D))
    k = rng.randrange(5)
    ctx.case([k, D["entities"][0]["id"]])
    if k == 0:
        D["schema"] = rng.choice([None, "yapcad-geometry-json-v9", "", 1])
    elif k == 1:
        e = rng.choice(D["entities"])
        e["id"] = rng.choice([None, ""])
    elif k == 2:
        sid = rng.choice(D["entities"][0]["shell"])
        D["entities"] = [e for e in D["entities"] if e["id"] != sid]
    elif k == 3:
        D["entities"][0]["voids"] = [["nope"]]
    if k == 4:
        bad = rng.choice([42, "solid", ["solid"], None, {"a": 1}, [["surface"]]])
        try:
            J.geometry_to_json([bad])
        except (ValueError, TypeError, RuntimeError):
            ctx.ev("refusals")
            return
        ctx.viol("refuse:entity", f"{bad!r} was serialized")
        return
    try:
        J.geometry_from_json(D)
    except ValueError:
        ctx.ev("refusals")
        return
    ctx.viol(f"refuse:{k}", "a damaged document was accepted", k)


GROUPS = {"trip": (g_trip, 140, 900), "void": (g_void, 25), "refuse": (g_refuse, 50)}
if __name__ == "__main__":
    vf.main(globals())
