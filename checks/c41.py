"""C41: finite-element meshes made with gmsh: exact volume, conforming, named faces, sizes."""
import math, os, shutil, sys, tempfile
from collections import Counter
import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

PROP = "C41"
LEVEL = "exploration"
META = dict(
    title="FE meshes fill exactly the part, name the right faces, obey their hints",
    statement="GmshMesher reads a STEP file and meshes its bodies: the tetrahedra of generate_mesh are positively oriented, conforming (every inner face shared by exactly two, every outer face on the surface of the part) and fill the part (exactly for flat-faced parts, to the element size for curved ones), in the order asked for; dim=2 or recover_3d=False gives the surface only. Element sizes follow element_size, the minimum and maximum size, and every refinement field. set_physical_groups_by_normal puts exactly the faces whose outward normal lies within the tolerance into each named group, set_physical_groups exactly the entities given; the exported file (whatever the suffix, format or named groups) holds the whole mesh and, under each name, exactly the elements on those faces; get_mesh_stats counts what is in the mesh. Using a mesher that was not initialised is refused.",
    over=["inputs", "histories"], q="for all STEP parts, groups, tolerances, sizes, orders, refinement fields and formats",
    why="The repository does not test the mesher without pythonocc: no test looks at a single element, size or group.",
    files=["src/yapcad/package/analysis/gmsh_mesher.py"],
    mech=[("named groups by normal and by tag", "src/yapcad/package/analysis/gmsh_mesher.py"), ("sizes, orders and refinement fields", "src/yapcad/package/analysis/gmsh_mesher.py"), ("export with groups and formats", "src/yapcad/package/analysis/gmsh_mesher.py")],
    technique="monitors over generated parts: every exported mesh is read back with meshio and decided against the part's analytic volume, faces and sizes",
    note="Exploration. Importing yapCAD solids directly needs pythonocc, which is not installed; parts come as STEP files written by gmsh's kernel and by yapCAD itself. Whether gmsh places nodes well is its own business: only sizes within a factor of four are asked for, and it may give up on curved walls.",
)
RULE = "random boxes, wedges, cylinders, drilled and stacked boxes and yapCAD prisms, turned and moved, with random groups, tolerances, sizes, orders, refinement boxes and formats; distinct by parameters"
REQUIRE = {"meshes": 50, "elements": 20000, "groups": 100, "group_faces": 12, "refined": 8, "exports": 60, "quadratic": 4, "surface_only": 5}
WALL_QUICK = 500


def init():
    global GM, gmsh, meshio, g, g3, U, step
    from yapcad.package.analysis import gmsh_mesher as GM
    from yapcad import geom as g, geom3d as g3, geom3d_util as U
    from yapcad.io import step
    import gmsh, meshio


def rot(axis, a):
    a = math.radians(a)
    x, y, z = axis
    c, s = math.cos(a), math.sin(a)
    return np.array([[c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s], [y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s], [z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)]])


def part(rng, path):
    """writes a STEP part; returns dict(volume, area, flat, normals=[(outward normal, point, area)], size)"""
    kind = rng.choice(["box", "box", "wedge", "cyl", "drilled", "stack", "yap"])
    a, b, c = (round(rng.uniform(6, 30), 3) for _ in range(3))
    o = np.array([round(rng.uniform(-40, 40), 3) for _ in range(3)])
    ax = [(1, 0, 0), (0, 1, 0), (0, 0, 1)][rng.randrange(3)]
    an = rng.choice([0, 0, 90, rng.uniform(-20, 20), rng.uniform(0, 360)])
    R = rot(ax, an)
    F = []  # outward normal, point on the plane, area, before turning
    box = lambda w, d, h, s=(0, 0, 0): [((-1, 0, 0), s, d * h), ((1, 0, 0), (s[0] + w, s[1], s[2]), d * h), ((0, -1, 0), s, w * h), ((0, 1, 0), (s[0], s[1] + d, s[2]), w * h), ((0, 0, -1), s, w * d), ((0, 0, 1), (s[0], s[1], s[2] + h), w * d)]
    r = min(a, b) * rng.uniform(.15, .35)
    flat, bodies = True, 1
    if kind == "yap":
        S = g3.translatesolid(U.prism(a, b, c), g.point(a / 2, b / 2, c / 2))
        if an:
            S = g3.rotatesolid(S, an, cent=g.point(0, 0, 0), axis=g.point(*ax))
        S = g3.translatesolid(S, g.point(*o))
        step.write_step(S, path)
        V, A, F = a * b * c, None, box(a, b, c)
        flat = True
    else:
        gmsh.initialize(interruptible=False)
        gmsh.option.setNumber("General.Terminal", 0)
        gmsh.option.setString("Geometry.OCCTargetUnit", "MM")
        occ = gmsh.model.occ
        if kind == "box":
            occ.addBox(0, 0, 0, a, b, c)
            V, F = a * b * c, box(a, b, c)
        elif kind == "wedge":
            t = a * rng.uniform(.2, .7)
            occ.addWedge(0, 0, 0, a, b, c, ltx=t)
            # x from 0 to a at y=0, to t at y=b
            V = (a + t) / 2 * b * c
            n = np.array([b, a - t, 0]) / math.hypot(b, a - t)
            F = [((-1, 0, 0), (0, 0, 0), b * c), ((0, -1, 0), (0, 0, 0), a * c), ((0, 1, 0), (0, b, 0), t * c), ((0, 0, -1), (0, 0, 0), (a + t) / 2 * b), ((0, 0, 1), (0, 0, c), (a + t) / 2 * b), (tuple(n), (a, 0, 0), math.hypot(b, a - t) * c)]
        elif kind == "cyl":
            r = min(a, b) / 2
            occ.addCylinder(0, 0, 0, 0, 0, c, r)
            V, flat = math.pi * r * r * c, False
            F = [((0, 0, -1), (0, 0, 0), math.pi * r * r), ((0, 0, 1), (0, 0, c), math.pi * r * r)]
        elif kind == "drilled":
            occ.cut([(3, occ.addBox(0, 0, 0, a, b, c))], [(3, occ.addCylinder(a / 2, b / 2, -1, 0, 0, c + 2, r))])
            V, flat = a * b * c - math.pi * r * r * c, False
            F = [f if abs(f[0][2]) < .5 else (f[0], f[1], f[2] - math.pi * r * r) for f in box(a, b, c)]
        else:
            # an L: a second box beside the first, lower
            w, h = a * .6, c * rng.uniform(.3, .7)
            occ.fuse([(3, occ.addBox(0, 0, 0, a, b, c))], [(3, occ.addBox(a, 0, 0, w, b, h))])
            occ.synchronize()
            V = a * b * c + w * b * h
            F = None
        occ.synchronize()
        E = gmsh.model.getEntities(3)
        occ.affineTransform(E, [*R[0], o[0], *R[1], o[1], *R[2], o[2], 0, 0, 0, 1])
        occ.synchronize()
        sys.stdout.flush()
        quiet(lambda: gmsh.write(path))
        gmsh.finalize()
    if F is not None:
        F = [(R @ np.array(n, float), R @ np.array(p, float) + o, s) for n, p, s in F]
    return dict(kind=kind, V=V, flat=flat, faces=F, dims=[a, b, c], r=r, key=[kind, a, b, c, list(map(float, o)), list(ax), an])


def quiet(f):
    """f() with the C library's standard output closed off"""
    fd = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    try:
        return f()
    finally:
        os.dup2(fd, 1)
        os.close(fd)
        os.close(nul)


def tetvol(P):
    return np.einsum("ij,ij->i", np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]), P[:, 3] - P[:, 0]) / 6


def triarea(P):
    return np.linalg.norm(np.cross(P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]), axis=1) / 2


def mesh(ctx, rng):
    tmp = tempfile.mkdtemp(prefix="c41-")
    try:
        one(ctx, rng, tmp)
    finally:
        try:
            if gmsh.isInitialized():
                gmsh.finalize()
        finally:
            shutil.rmtree(tmp)


def one(ctx, rng, tmp):
    P = part(rng, os.path.join(tmp, "part.step"))
    size = round(min(P["dims"]) * rng.uniform(.3, .8), 3)
    if P["kind"] == "drilled":
        size = min(size, P["r"])
    order = 2 if rng.random() < .15 else 1
    mode = rng.choice(["3d", "3d", "3d", "3d", "3d", "dim2", "recover"])
    refine = rng.random() < .25 and mode == "3d" and order == 1
    kw = {}
    if rng.random() < .25 and not refine:
        kw["max_element_size"] = size * rng.uniform(.5, .9)
    if rng.random() < .2:
        kw["min_element_size"] = size * rng.uniform(.02, .3)
    if rng.random() < .3:
        kw["optimize"] = False
    if rng.random() < .3:
        kw["algorithm_3d"] = 1
    ext = rng.choice(["msh", "msh", "msh", "vtk", "fmt-msh", "fmt-vtk", "xdmf"])
    key = [P["key"], size, order, mode, refine, kw, ext]
    ctx.case(key)
    v = lambda mech, msg: ctx.viol("mesh:" + mech, f"{key}: {msg}", key)
    m = GM.GmshMesher("m%d" % rng.randrange(9))
    for call in (lambda: m.import_step(os.path.join(tmp, "part.step")), lambda: m.generate_mesh(), lambda: m.export_mesh(os.path.join(tmp, "x.msh")), lambda: m.get_mesh_stats()):
        try:
            call()
            v("refuse", "a mesher that was not initialised was used")
        except RuntimeError:
            pass
    m.initialize(verbose=False)
    try:
        ents = m.import_step(os.path.join(tmp, "part.step"))
        if [d for d, _ in ents] != [3]:
            if P["kind"] != "yap":
                v("import", f"the part came in as {ents}")
            return
        # groups
        faces = P["faces"]
        groups, want = {}, {}
        if faces and rng.random() < .8:
            tol = rng.choice([5.0, 5.0, 1.0, rng.uniform(2, 40)])
            for i in range(rng.randint(1, 4)):
                n = rng.choice(faces)[0]
                if rng.random() < .5:  # off by an angle
                    t = np.cross(n, [rng.gauss(0, 1) for _ in range(3)])
                    d = math.radians(tol * rng.choice([.3, .8, 1.2, 2]))
                    n = math.cos(d) * n + math.sin(d) * t / np.linalg.norm(t)
                elif rng.random() < .2:
                    n = -n
                angs = [math.degrees(math.acos(max(-1, min(1, float(f[0] @ n))))) for f in faces]
                if any(abs(x - tol) < .02 * tol + .01 for x in angs):
                    continue
                groups[f"g{i}"] = tuple(float(x) * rng.choice([1, 1, 3]) for x in [1]) and tuple(float(x) for x in n * rng.choice([1.0, 3.0, .2]))
                want[f"g{i}"] = [f for f, x in zip(faces, angs) if x < tol]
            if tol == 5.0 and rng.random() < .5:
                m.set_physical_groups_by_normal(groups)
            else:
                m.set_physical_groups_by_normal(groups, tolerance_deg=tol)
        if rng.random() < .4:
            m.set_physical_groups({"body": [t for d, t in ents], "none": []}, dim=3)
        fs = gmsh.model.getEntities(2)
        tagged = None
        if rng.random() < .3:
            tagged = rng.sample([t for _, t in fs], rng.randint(1, len(fs)))
            m.set_physical_groups({"tagged": tagged})
        hints = GM.MeshHints(element_size=size, element_order=order, recover_3d=mode != "recover", **kw)
        lo = hi = None
        if refine:
            bb = np.array(gmsh.model.getBoundingBox(-1, -1)).reshape(2, 3)
            side = rng.choice([0, 1])
            lo, hi = bb[0].copy(), bb[1].copy()
            i = rng.randrange(3)
            mid = (bb[0][i] + bb[1][i]) / 2
            (hi if side == 0 else lo)[i] = mid
            fine = size * rng.uniform(.25, .4)
            f1 = dict(type="Box", VIn=fine, VOut=size * 2, XMin=lo[0] - 1, XMax=hi[0] + 1, YMin=lo[1] - 1, YMax=hi[1] + 1, ZMin=lo[2] - 1, ZMax=hi[2] + 1)
            f1 = {k: (float(x) if k != "type" else x) for k, x in f1.items()}
            f2 = dict(type="Box", VIn=size * 1.5, VOut=size * 1.7, XMin=-1e3, XMax=1e3, YMin=-1e3, YMax=1e3, ZMin=-1e3, ZMax=1e3)
            hints.refinement_fields = rng.choice([[f1], [f1, f2], [f2, f1]])
        try:
            m.generate_mesh(hints, dim=2 if mode == "dim2" else 3)
        except Exception as e:  # gmsh itself may give up on a coarse curved wall
            if not P["flat"] and "boundary mesh" in str(e):
                ctx.ev("gmsh_gave_up")
                return
            raise
        ctx.ev("meshes")
        st = m.get_mesh_stats()
        path = os.path.join(tmp, "out." + {"fmt-msh": "mesh-file", "fmt-vtk": "bin"}.get(ext, ext))
        # meshio reads msh elements only with consistent groups; vtk has none
        got = quiet(lambda: m.export_mesh(path, ext[4:]) if ext.startswith("fmt") else m.export_mesh(path))
        ctx.ev("exports")
        if ext != "xdmf" and str(got) != path or not os.path.exists(got):
            v("export", f"exported to {got}, asked for {path}")
            return
        again = m.get_mesh_stats()
        if again != st:
            v("stats", f"exporting changed the statistics from {st} to {again}")
        pg = {n: [int(t) for t in gmsh.model.getEntitiesForPhysicalGroup(*dt)] for dt in gmsh.model.getPhysicalGroups() for n in [gmsh.model.getPhysicalName(*dt)]}
        planes = {t: (np.array(gmsh.model.getNormal(t, [.5 * (x + y) for x, y in zip(*gmsh.model.getParametrizationBounds(2, t))])), gmsh.model.getType(2, t)) for _, t in fs}
        mass = {t: gmsh.model.occ.getMass(2, t) for _, t in fs}
        com = {t: np.array(gmsh.model.occ.getCenterOfMass(2, t)) for _, t in fs}
    finally:
        m.finalize()
    fmt = "vtk" if ext.endswith("vtk") else "gmsh"
    M = meshio.read(str(got), file_format=fmt)
    X = M.points
    blocks = {}
    for k, cb in enumerate(M.cells):
        blocks.setdefault(cb.type, []).append(cb.data)
    cells = {k: np.concatenate(x) for k, x in blocks.items()}
    tt, tr = ("tetra10", "triangle6") if order == 2 else ("tetra", "triangle")
    if order == 2:
        ctx.ev("quadratic")
    ctx.ev("elements", sum(len(x) for x in cells.values()))
    name = {"Tetrahedron 4": "tetra", "Tetrahedron 10": "tetra10"}
    if mode != "3d":
        ctx.ev("surface_only")
        if any(k.startswith("tet") for k in cells):
            v("dim", "a surface mesh was asked for, tetrahedra came")
        if tr not in cells:
            v("dim", f"no triangles: {list(cells)}")
            return
        # format 2.2 writes an element once for each of its groups
        T = X[np.unique(np.sort(cells[tr][:, :3], axis=1), axis=0)]
        A = sum(mass.values())
        if abs(triarea(T).sum() - A) > (1e-5 if P["flat"] else .2) * A:
            v("area", f"the triangles cover {triarea(T).sum()}, the part has {A}")
    else:
        if tt not in cells:
            v("whole", f"no {tt} elements in the exported file: {list(cells)} with groups {list(pg)}")
            return
        C = cells[tt]
        C = C[np.unique(np.sort(C[:, :4], axis=1), axis=0, return_index=True)[1]]
        n = {name.get(k): x for k, x in st["elements"].items()}
        if n.get(tt) != len(C):
            v("stats", f"statistics {st['elements']}, the file has {len(C)} {tt}")
        Q = X[C[:, :4]]
        vol = tetvol(Q)
        bad = int((vol <= -1e-9 * vol.mean()).sum())
        if bad > .01 * len(C):
            v("oriented", f"{bad} of {len(C)} tetrahedra are inverted")
        if order == 2 and not P["flat"]:
            pass
        elif P["flat"]:
            if abs(vol.sum() - P["V"]) > 1e-6 * P["V"]:
                v("volume", f"the elements fill {vol.sum()}, the part has {P['V']}")
        else:
            # chords of at most 3*size on the curved walls
            r, h = (min(P["dims"][:2]) / 2 if P["kind"] == "cyl" else P["r"]), P["dims"][2]
            if abs(vol.sum() - P["V"]) > .65 * math.pi * r * r * h or (P["kind"] == "cyl" and vol.sum() > P["V"] * (1 + 1e-9)) or (P["kind"] == "drilled" and vol.sum() < P["V"] * (1 - 1e-9)):
                v("volume", f"the elements fill {vol.sum()}, the part has {P['V']}")
        # conforming
        cnt = Counter(tuple(sorted(f)) for c in C[:, :4].tolist() for f in ((c[0], c[1], c[2]), (c[0], c[1], c[3]), (c[0], c[2], c[3]), (c[1], c[2], c[3])))
        if max(cnt.values()) > 2:
            v("conforming", "a face belongs to more than two elements")
        outer = np.array([f for f, k in cnt.items() if k == 1])
        A = triarea(X[outer]).sum()
        if P["flat"] and abs(A - sum(mass.values())) > 1e-5 * A:
            v("conforming", f"the outer faces of the elements have area {A}, the part {sum(mass.values())}")
        L = np.linalg.norm(Q[:, [0, 0, 0, 1, 1, 2]] - Q[:, [1, 2, 3, 2, 3, 3]], axis=2)
        cap = min(size, kw.get("max_element_size", size))
        if not refine and L.max() > 4 * cap:
            v("size", f"an element edge is {L.max()} long, sizes are {cap}")
        med = float(np.median(L))
        if not refine and P["kind"] in ("box", "yap") and med < .25 * max(cap, kw.get("min_element_size", 0)):
            v("size", f"the median edge is {med}, sizes are {cap}")
        if refine:
            ctx.ev("refined")
            cen = Q.mean(1)
            s = .3 * size
            inner = np.all((cen > lo + (s if 0 else 0)) & (cen < hi), axis=1)
            deep = inner & (abs(cen[:, i] - mid) > size)
            if deep.sum() > 5 and np.median(L[deep].max(1)) > 2.2 * fine:
                v("refine", f"inside the refinement box of size {fine} the elements are {np.median(L[deep].max(1))} long (element size {size})")
            out = ~inner & (abs(cen[:, i] - mid) > 2 * size)
            if out.sum() > 20 and np.median(L[out].max(1)) < 1.1 * fine:
                v("refine", f"outside the refinement box of size {fine} the elements are just as small")
    if st["nodes"] < len(np.unique(np.concatenate([x.ravel() for x in cells.values()]))):
        v("stats", f"{st['nodes']} nodes in the statistics, {len(X)} in the file")
    # groups: exactly the faces asked for
    names = set(pg)
    exp = {n for n in groups if want[n]}
    for n in groups:
        ctx.ev("groups")
        tags = pg.get(n, [])
        fl = [t for t in tags if planes[t][1] == "Plane"]
        w = [t for t in planes if planes[t][1] == "Plane" and any(abs((com[t] - f[1]) @ f[0]) < 1e-3 and np.linalg.norm(np.cross(planes[t][0], f[0])) < 1e-3 and planes[t][0] @ f[0] > 0 for f in want[n])]
        ctx.ev("group_faces", len(w))
        if sorted(fl) != sorted(w):
            v("group", f"the group {n} of faces towards {groups[n]} has the flat faces {sorted(fl)}, expected {sorted(w)}: {[(t, com[t].round(3).tolist()) for t in planes]}")
    if tagged is not None and sorted(pg.get("tagged", [])) != sorted(tagged):
        v("tagged", f"the group of faces {tagged} has {pg.get('tagged')}")
    if "none" in pg:
        v("empty", "an empty group was defined")
    if sorted(set(st["physical_groups"])) != sorted(n for n in pg if n):
        v("stats", f"statistics name the groups {st['physical_groups']}, the model has {sorted(pg)}")
    if fmt == "gmsh" and ext != "xdmf" and M.field_data:
        ph = M.cell_data_dict.get("gmsh:physical", {})
        for n in pg:
            if n not in M.field_data:
                if n:
                    v("file-group", f"the group {n} is not in the file")
                continue
            num, dim = (int(x) for x in M.field_data[n])
            if dim == 2 and n in groups:
                # the triangles under this name have the area of its faces and lie in their planes
                sel = np.concatenate([cb.data[M.cell_data["gmsh:physical"][k] == num] for k, cb in enumerate(M.cells) if cb.type == tr] or [np.zeros((0, 3), int)])
                shared = any(set(pg[n]) & set(pg[o]) for o in pg if o != n)
                T = X[sel[:, :3].astype(int)]
                if not shared and P["flat"] and want[n] and abs(triarea(T).sum() - sum(f[2] for f in want[n])) > 1e-5 * (1 + triarea(T).sum()) and P["kind"] != "yap":
                    v("file-group", f"the elements named {n} cover {triarea(T).sum()}, its faces {sum(f[2] for f in want[n])}")


GROUPS = {"mesh": (mesh, 130, 1500)}

if __name__ == "__main__":
    vf.main(globals())
