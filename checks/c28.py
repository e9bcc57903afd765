import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, json, logging, math
import vf

PROP = "C28"
LEVEL = "exploration"
META = dict(
    title="Mechatron snapshots and load cases carry the whole assembly, intact",
    statement="to_mechatron_snapshot() lists every part instance once, in the order added, under its unique instance name, with its material mapped to the Mechatron name (PETG when unknown), its process and every datum with the datum's own type, origin, direction or normal and radius. Mates between the same ordered pair of parts form one interface (sequential unique ids, first-occurrence order): its joint is the first motion mate's (rigid Fixed, revolute, prismatic, spherical Ball, with the parent axis' direction) or Fixed; concentric, coincident, tangent, angle and parallel mates appear as constraints naming existing datums, angles in degrees; the insertion vector opposes the parent plane or circle normal; registered bolt patterns and load cases appear unchanged. So every reference in the JSON resolves within it. Visual primitives given in millimetres come out in metres. The JSON is deterministic and the assembly is not modified. LoadCase and BoltPattern survive to_dict/from_dict (also through JSON) and refuse invalid groups, frames, states, missing magnitudes, non-3-vectors and non-positive diameters or counts. emit_assembly in the DSL gives the same document.",
    over=["inputs"], q="for all assemblies, materials, mates, load cases and bolt patterns",
    why="The snapshot is the hand-off to the motion and FEA tools: a dangling part name, a radian taken for a degree or a mm for a metre is silently simulated.",
    files=["src/yapcad/assembly/mechatron_export.py", "src/yapcad/assembly/load_case.py", "src/yapcad/assembly/assembly.py", "src/yapcad/dsl/runtime/builtins.py"],
    mech=[("to_mechatron_snapshot", "src/yapcad/assembly/mechatron_export.py"), ("LoadCase, BoltPattern", "src/yapcad/assembly/load_case.py"), ("emit_assembly", "src/yapcad/dsl/runtime/builtins.py")],
    technique="random assemblies exported and the parsed JSON compared, entry by entry, with an independent derivation from the construction recipe",
    note="Exploration. Mate kinds documented as dropped are checked only to leave references intact. Axes of joints on datums without a direction (documented +Z placeholder), insertion vectors when a motion mate uses a plane or circle, and geom positions without the _mm suffix are not judged.",
)
RULE = "random definitions, instances, mates, load cases, bolt patterns; distinct by the recipe"
REQUIRE = {"snapshot": 400, "part": 1500, "shared": 300, "datum": 3000, "iface": 600, "joint": 250, "constraint": 400, "angle": 60, "ivec": 200, "bolt": 100, "load": 200, "roundtrip": 400, "refused": 250, "dsl": 60, "geom": 300, "grouped": 150}
WALL_QUICK = 200


def init():
    global A, AE, D, DT, PD, M, MT, MX, LC
    from yapcad.assembly.assembly import Assembly as A, AssemblyError as AE
    from yapcad.assembly.datum import Datum as D, DatumType as DT, PartDefinition as PD
    from yapcad.assembly.mate import Mate as M, MateType as MT
    from yapcad.assembly import mechatron_export as MX, load_case as LC
    logging.disable(logging.CRITICAL)


def unit(rng):
    if rng.random() < 0.4:
        v = [0, 0, 0]
        v[rng.randrange(3)] = rng.choice([1, -1])
        return v
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(c * c for c in v))
        if n > 0.1:
            return [c / n for c in v]


def rdatum(rng, name):
    k = rng.choice(["point", "axis", "axis", "plane", "plane", "circle"])
    o = [rng.choice([rng.uniform(-200, 200), 0, rng.randint(-50, 50)]) for _ in range(3)]
    d = unit(rng)
    kw, spec = {}, {"k": k, "o": o}
    if k == "axis":
        kw["direction"] = d + [0]
        spec["d"] = d
    elif k in ("plane", "circle"):
        kw["normal"] = d + [0]
        spec["n"] = d
    if k == "circle":
        spec["r"] = kw["radius"] = rng.uniform(0.5, 90)
    return D(name=name, datum_type=DT(k), origin=o + [1], **kw), spec


MATS = {"pla": "PLA", "PETG": "PETG", "petg-cf": "PetgCf", "petg_cf": "PetgCf", "TPU": "TPU", "abs": "ABS", "asa": "ASA", "pc": "PC", "PA-CF": "PaCf", "pa_cf": "PaCf", "nylon": "Nylon",
        "Aluminum": "Aluminum", "steel": "Steel", "Stainless": "Stainless", "brass": "Brass", "titanium": "Titanium", "unobtainium": "PETG", "": "PETG"}
VAR = {"concentric": "AxisCoincident", "coincident": "Coincident", "tangent": "Tangent", "angle": "Angle", "parallel": "AxisAlign"}
JOINT = {"rigid": "Fixed", "revolute": "Revolute", "prismatic": "Prismatic", "spherical": "Ball"}
KINDS = ["concentric", "concentric", "coincident", "coincident", "tangent", "angle", "angle", "parallel", "perpendicular", "distance", "rigid", "revolute", "prismatic", "spherical", "planar", "screw"]


def v3(d):
    return None if d is None else [d["x"], d["y"], d["z"]]


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(abs(float(x) - float(y)) <= tol * (1 + abs(float(y))) for x, y in zip(a, b))


def rload(rng, parts, i):
    kw = dict(id=f"LC-{i}", name=rng.choice(["chute", "thrust", ""]), group=rng.choice(list(LC.VALID_GROUPS)), direction=unit(rng),
              attach=LC.LoadAttach(part=rng.choice(parts + ["_assembly"]), position=[rng.uniform(-9, 9) for _ in range(3)], interface=rng.choice([None, "iface_0"]), clock_deg=rng.choice([None, 0.0, 45.5]), bolt_index=rng.choice([None, 0, 3])),
              coordinate_frame=rng.choice(list(LC.VALID_FRAMES)), description=rng.choice(["", "d"]), source=rng.choice(["", "s"]), status=rng.choice(list(LC.VALID_STATUSES)), warn=rng.random() < 0.4)
    which = rng.randrange(3)
    if which != 0:
        kw["magnitude_n"] = rng.choice([0.0, rng.uniform(0, 5000)])
    if which != 1:
        kw["magnitude_g"] = rng.choice([0, rng.uniform(0, 20)])
    return LC.LoadCase(**kw), kw


def rbolt(rng):
    kw = dict(pcd_mm=rng.uniform(1, 300), n_bolts=rng.randint(1, 24), bolt_spec=rng.choice(["m3x10", "1-4-20"]), access_direction=unit(rng))
    return LC.BoltPattern(**kw), kw


def g_snapshot(ctx, rng):
    asm = A(rng.choice(["asm", "forward section", "a\"q\u00e9"]))
    defs = []
    for k in range(rng.randint(1, 4)):
        mat = rng.choice(list(MATS))
        pd = PD(name=f"DEF{k}", material=mat)
        specs = {}
        for j in range(rng.randint(0, 5)):
            d, s = rdatum(rng, f"d{j}")
            pd.add_datum(d)
            specs[f"d{j}"] = s
        proc = None
        if rng.random() < 0.4:
            proc = pd.process = rng.choice(["CNC", "WAAM", "Cast"])
        geoms = []
        if rng.random() < 0.4:
            geoms = [rgeom(rng) for _ in range(rng.randint(1, 3))]
            pd.geoms = [g for g, _ in geoms]
        defs.append((pd, mat, specs, proc, geoms))
    inst = []
    for i in range(rng.randint(1, 6)):
        d = rng.randrange(len(defs))
        nm = rng.choice([f"inst{i}", f"{i} of x", defs[(d + 1) % len(defs)][0].name])
        if nm in asm.parts:
            nm = f"inst{i}"
        if rng.random() < 0.15 and defs[d][0].name not in asm.parts:
            asm.add_part(defs[d][0])
            nm = defs[d][0].name
        else:
            asm.add_part(defs[d][0], name=nm)
        inst.append((nm, d))
    if len({d for _, d in inst}) < len(inst):
        ctx.ev("shared")
    names = [n for n, _ in inst]
    spec = {n: defs[d][2] for n, d in inst}
    groups = []
    for i in range(rng.randint(0, 8)):
        if len(names) < 2:
            break
        p, q = rng.sample(names, 2)
        if groups and rng.random() < 0.5:
            p, q = groups[rng.randrange(len(groups))][0]
            if rng.random() < 0.2:
                p, q = q, p
        if not spec[p] or not spec[q]:
            continue
        da, db = rng.choice(sorted(spec[p])), rng.choice(sorted(spec[q]))
        k = rng.choice(KINDS)
        kw = {}
        if k == "angle":
            kw["angle"] = rng.choice([0.0, math.pi / 2, rng.uniform(-3, 3)])
        if k == "screw":
            kw["pitch"] = 1.5
        try:
            asm.add_mate(M(f"m{i}", MT(k), p, da, q, db, **kw))
        except (AE, ValueError, TypeError):
            continue
        for gkey, lst in groups:
            if gkey == (p, q):
                lst.append((k, da, db, kw))
                ctx.ev("grouped")
                break
        else:
            groups.append(((p, q), [(k, da, db, kw)]))
    bolts, loads = {}, []
    for (p, q), _ in groups:
        if rng.random() < 0.5:
            b, kw = rbolt(rng)
            asm.add_bolt_pattern(p, q, b)
            bolts[(p, q)] = kw
    for i in range(rng.randint(0, 3)):
        lc, kw = rload(rng, names, i)
        asm.add_load_case(lc)
        loads.append(kw)
    recipe = dict(inst=inst, specs=[d[2] for d in defs], mats=[d[1] for d in defs], groups=groups, bolts=[list(b) for b in bolts], loads=len(loads))
    ctx.case(("snap", repr(recipe)))
    before = state(asm)
    js = MX.to_mechatron_json(asm, indent=rng.choice([None, 2]))
    ctx.check(state(asm) == before, "mutated", "exporting changed the assembly", recipe)
    snap = json.loads(js)
    ctx.check(snap == json.loads(json.dumps(MX.to_mechatron_snapshot(asm))), "deterministic", "two exports of one assembly differ", recipe)
    ctx.ev("snapshot")
    judge(ctx, snap, asm.name, inst, defs, groups, bolts, loads, spec, recipe)


def state(asm):
    return repr([(n, id(p), {k: (d.datum_type, list(d.origin), d.direction and list(d.direction), d.normal and list(d.normal), d.radius) for k, d in p.datums.items()}, p.material, getattr(p, "geoms", None)) for n, p in asm.parts.items()]) + repr([m.to_dict() for m in asm.mates]) + repr(list(asm.load_cases)) + repr(list(asm.bolt_patterns))


def judge(ctx, snap, name, inst, defs, groups, bolts, loads, spec, recipe):
    ids = [p["id"] for p in snap["parts"]]
    ctx.check(ids == [n for n, _ in inst] and [p["name"] for p in snap["parts"]] == ids, "parts", lambda: f"part ids {ids}, instances {[n for n, _ in inst]}", recipe)
    ctx.check(name in snap["last_script"], "provenance", "last_script does not name the assembly", recipe)
    for p, (n, d) in zip(snap["parts"], inst):
        ctx.ev("part")
        pd, mat, specs, proc, geoms = defs[d]
        ctx.check(p["material"] == MATS[mat] and p["process"] == (proc or "FDM"), "part:material", lambda: f"{n}: {p['material']} {p['process']}, declared {mat!r} {proc}", recipe)
        ctx.check([x["name"] for x in p["datums"]] == list(specs), "datums", lambda: f"{n}: datums {[x['name'] for x in p['datums']]}, declared {list(specs)}", recipe)
        for x in p["datums"]:
            s = specs.get(x["name"])
            if s is None:
                continue
            ctx.ev("datum")
            ok = x["datum_type"] == s["k"].capitalize() and close(v3(x["origin"]), s["o"]) and close(v3(x.get("direction")), s.get("d"), 1e-6) and close(v3(x.get("normal")), s.get("n"), 1e-6) and (x.get("radius") is None if "r" not in s else abs(x["radius"] - s["r"]) < 1e-9)
            ctx.check(ok, "datum", lambda: f"{n}.{x['name']}: {x}, declared {s}", recipe)
        jg(ctx, p.get("geoms", []), geoms, recipe)
    ifs = snap["interfaces"]
    ctx.check(len({i["id"] for i in ifs}) == len(ifs) and [i["id"] for i in ifs] == [f"iface_{k}" for k in range(len(ifs))], "iface:ids", "interface ids not sequential and unique", recipe)
    ctx.check([(i["parent_part"], i["child_part"]) for i in ifs] == [g for g, _ in groups], "iface:pairs", lambda: f"interfaces {[(i['parent_part'], i['child_part']) for i in ifs]}, mated pairs {[g for g, _ in groups]}", recipe)
    byid = {p["id"]: {d["name"] for d in p["datums"]} for p in snap["parts"]}
    for i in ifs:
        ok = i["parent_part"] in byid and i["child_part"] in byid
        for c in i["mate_constraints"]:
            ok = ok and c["child_datum"] in byid.get(i["child_part"], ()) and ("parent_datum" not in c or c["parent_datum"] in byid.get(i["parent_part"], ()))
        ctx.check(ok, "dangling", lambda: f"interface {i['id']} refers to a part or datum that is not in the document", recipe)
    for i, ((p, q), ms) in zip(ifs, groups):
        ctx.ev("iface")
        mot = [m for m in ms if m[0] in JOINT]
        if mot:
            ctx.ev("joint")
            k, da = mot[0][0], mot[0][1]
            ctx.check(i["joint"]["type"] == JOINT[k], "joint", lambda: f"joint {i['joint']}, first motion mate {k}", recipe)
            if k in ("revolute", "prismatic"):
                d = spec[p][da].get("d")
                if d is not None:
                    ctx.check(close(i["joint"].get("axis"), d, 1e-6), "joint:axis", lambda: f"axis {i['joint'].get('axis')}, parent datum direction {d}", recipe)
        else:
            ctx.check(i["joint"] == {"type": "Fixed"}, "joint", lambda: f"joint {i['joint']} without a motion mate", recipe)
        want = []
        for k, da, db, kw in ms:
            if k not in VAR:
                continue
            v = VAR[k]
            if k == "concentric" and mot:
                v = "Concentric"
            if v == "AxisAlign":
                want.append(("AxisAlign", None, db, spec[p][da].get("d")))
            else:
                want.append((v, da, db, kw.get("angle", 0.0) if v == "Angle" else None))
        got = i["mate_constraints"]
        if ctx.check([(c["type"], c.get("parent_datum"), c["child_datum"]) for c in got] == [w[:3] for w in want], "constraints", lambda: f"constraints {got}, expected {want}", recipe) is not False:
            for c, w in zip(got, want):
                ctx.ev("constraint")
                if w[0] == "Angle":
                    ctx.ev("angle")
                    ctx.check(abs(c["angle_deg"] - math.degrees(w[3])) < 1e-7, "angle", lambda: f"angle_deg {c['angle_deg']}, mate angle {w[3]} rad", recipe)
                elif w[0] == "AxisAlign" and w[3] is not None:
                    ctx.check(close(c["target_axis"], w[3], 1e-6), "axisalign", lambda: f"target_axis {c['target_axis']}, parent direction {w[3]}", recipe)
        faces = [(k, spec[p][da]["n"]) for k, da, db, kw in ms if "n" in spec[p][da]]
        if not any(k in JOINT for k, _ in faces):
            if faces:
                ctx.ev("ivec")
                ctx.check(close(i.get("insertion_vector"), [-c for c in faces[0][1]], 1e-6), "ivec", lambda: f"insertion_vector {i.get('insertion_vector')}, parent normal {faces[0][1]}", recipe)
            else:
                ctx.check("insertion_vector" not in i, "ivec", "insertion_vector without a plane or circle", recipe)
        b = bolts.get((p, q))
        if b is None:
            ctx.check(i.get("bolt_pattern") is None, "bolt", "a bolt pattern appears on the wrong interface", recipe)
        else:
            ctx.ev("bolt")
            g = i.get("bolt_pattern") or {}
            ctx.check(g == b, "bolt", lambda: f"bolt pattern {g}, registered {b}", recipe)
    gl = snap.get("load_cases", [])
    ctx.check([x["id"] for x in gl] == [k["id"] for k in loads], "loads", lambda: f"load cases {[x['id'] for x in gl]}, registered {[k['id'] for k in loads]}", recipe)
    for x, k in zip(gl, loads):
        ctx.ev("load")
        lcheck(ctx, x, k, recipe)


def lcheck(ctx, x, k, recipe):
    a = k["attach"]
    ok = all(x[f] == k[f] for f in ("id", "name", "group", "direction", "coordinate_frame", "description", "source", "status")) and x.get("magnitude_n") == k.get("magnitude_n") and x.get("magnitude_g") == k.get("magnitude_g") and bool(x.get("warn")) == k["warn"]
    ok = ok and x["attach"]["part"] == a.part and list(x["attach"]["position"]) == list(a.position) and all(x["attach"][f] == getattr(a, f) for f in ("interface", "clock_deg", "bolt_index"))
    ctx.check(ok, "load", lambda: f"load case {x}, registered {k}", recipe)


def rgeom(rng):
    """(entry, expected converted entry or None)"""
    t = rng.choice(["box", "cylinder", "sphere", "capsule", "mesh", "Box", "CYLINDER", "cone", ""])
    e, w = {"type": t}, {"type": {"box": "Box", "cylinder": "Cylinder", "sphere": "Sphere", "capsule": "Capsule", "mesh": "Mesh"}.get(t.lower())}
    m = lambda: rng.choice([rng.uniform(0.5, 400), rng.randint(1, 100)])
    r, h = m(), m()
    k = t.lower()
    if k == "box":
        s = [m() for _ in range(3)]
        e["size_mm"] = s
        w["size"] = [c / 1000 for c in s]
    if k in ("cylinder", "sphere") and rng.random() < 0.3:
        e["radius"] = w["radius"] = r / 1000
        if k == "cylinder":
            e["half_height"] = w["half_height"] = h / 1000
    elif k in ("cylinder", "sphere", "capsule"):
        e["radius_mm"], w["radius"] = r, r / 1000
        if k != "sphere":
            e["half_height_mm"], w["half_height"] = h, h / 1000
    if k == "mesh":
        e["path"] = w["path"] = "a/b.stl"
        if rng.random() < 0.5:
            e["scale"] = w["scale"] = 0.001
    if rng.random() < 0.5:
        p = [rng.uniform(-300, 300) for _ in range(3)]
        e["pos_mm"], w["pos"] = p, [c / 1000 for c in p]
    if rng.random() < 0.3:
        e["rgba"] = w["rgba"] = [0.2, 0.3, 0.4, 1.0]
    return e, (None if w["type"] is None else w)


def jg(ctx, got, geoms, recipe):
    want = [w for _, w in geoms if w]
    ok = len(got) == len(want)
    for g, w in zip(got, want):
        ctx.ev("geom")
        ok = ok and set(g) == set(w) and all((close(g[k], v) if isinstance(v, list) else abs(g[k] - v) <= 1e-12 + 1e-9 * abs(v) if isinstance(v, float) else g[k] == v) for k, v in w.items())
    ctx.check(ok, "geoms", lambda: f"geoms {got}, expected {want}", recipe)


def g_records(ctx, rng):
    parts = ["a", "b c"]
    lc, kw = rload(rng, parts, rng.randrange(5))
    b, kb = rbolt(rng)
    ctx.case(("rec", repr(kw), repr(kb)))
    d = lc.to_dict()
    lcheck(ctx, d, kw, {})
    back = LC.LoadCase.from_dict(json.loads(json.dumps(d)))
    ctx.ev("roundtrip")
    ctx.check(back == lc and back.to_dict() == d, "roundtrip", lambda: f"LoadCase round trip: {back} != {lc}")
    b2 = LC.BoltPattern.from_dict(json.loads(json.dumps(b.to_dict())))
    ctx.check(b2 == b and b.to_dict() == kb, "roundtrip:bolt", lambda: f"BoltPattern round trip: {b2} != {b}")
    # defaults of from_dict
    mini = {"id": "x", "name": "n", "group": "custom", "direction": [0, 0, 1], "attach": {"part": "a"}, "magnitude_g": 1}
    m = LC.LoadCase.from_dict(mini)
    ctx.check((m.coordinate_frame, m.status, m.warn, list(m.attach.position), m.attach.interface, m.magnitude_n) == ("vehicle", "estimated", False, [0, 0, 0], None, None), "defaults", "from_dict defaults differ from the documented ones")
    # refusals
    bad = rng.choice(["group", "frame", "status", "mag", "dir", "pcd", "n", "acc"])
    if bad in ("pcd", "n", "acc"):
        k2 = dict(kb)
        k2.update({"pcd": {"pcd_mm": rng.choice([0, -1.5])}, "n": {"n_bolts": rng.choice([0, -2])}, "acc": {"access_direction": rng.choice([[0, 1], [1, 0, 0, 0], []])}}[bad])
        f = rng.choice([lambda: LC.BoltPattern(**k2), lambda: LC.BoltPattern.from_dict(k2)])
    else:
        dd = json.loads(json.dumps(d))
        if bad == "group":
            dd["group"] = rng.choice(["", "Inertial", "gravity"])
        if bad == "frame":
            dd["coordinate_frame"] = "world"
        if bad == "status":
            dd["status"] = "guess"
        if bad == "mag":
            dd.pop("magnitude_n", None)
            dd.pop("magnitude_g", None)
        if bad == "dir":
            dd["direction"] = rng.choice([[1, 0], [0, 0, 1, 0], []])
        f = lambda: LC.LoadCase.from_dict(dd)
    ctx.ev("refused")
    try:
        f()
        ctx.viol("refuse:" + bad, f"invalid {bad} accepted")
    except ValueError:
        pass


def g_dsl(ctx, rng):
    from yapcad.dsl.runtime.builtins import call_builtin
    from yapcad.dsl.runtime.values import solid_val, string_val
    from yapcad.dsl.meta_apply import apply_meta_hint
    from yapcad.geom3d_util import prism
    S = string_val
    asm = call_builtin("assembly", [S("sec")])
    inst, defs, spec = [], [], {}
    for i in range(rng.randint(1, 4)):
        s = prism(1, 1, 1)
        mat = rng.choice([m for m in MATS if m])
        entries, specs = [], {}
        for j in range(rng.randint(0, 3)):
            k = rng.choice(["axis", "plane", "point"])
            o = [rng.uniform(-50, 50) for _ in range(3)]
            d = unit(rng)
            entries.append({"id": f"q{j}", "kind": k, "origin_mm": o, "direction": d})
            sp = {"k": k, "o": o}
            if k == "axis":
                sp["d"] = d
            if k == "plane":
                sp["n"] = d
            specs[f"q{j}"] = sp
        hint = {"material": mat}
        if entries:
            hint["assembly.datums"] = entries
        geoms = []
        if rng.random() < 0.5:
            geoms = [rgeom(rng) for _ in range(rng.randint(1, 2))]
            hint["assembly.geoms"] = [copy.deepcopy(g) for g, _ in geoms]
        try:
            apply_meta_hint(s, hint)
        except ValueError:
            if geoms:
                hint.pop("assembly.geoms")
                geoms = []
                s = prism(1, 1, 1)
                apply_meta_hint(s, hint)
            else:
                raise
        n = f"part{i}"
        call_builtin("add_part", [asm, solid_val(s), S(n)])
        defs.append((None, mat, specs, None, geoms))
        inst.append((n, i))
        spec[n] = specs
    groups = []
    for _ in range(rng.randint(0, 4)):
        if len(inst) < 2:
            break
        p, q = rng.sample([n for n, _ in inst], 2)
        if not spec[p] or not spec[q]:
            continue
        da, db = rng.choice(sorted(spec[p])), rng.choice(sorted(spec[q]))
        k = rng.choice(["concentric", "coincident", "revolute", "prismatic", "rigid", "parallel"])
        try:
            call_builtin("add_mate", [asm, S(k), S(p), S(da), S(q), S(db)])
        except Exception:
            continue
        for g, l in groups:
            if g == (p, q):
                l.append((k, da, db, {}))
                break
        else:
            groups.append(((p, q), [(k, da, db, {})]))
    ctx.ev("dsl")
    ctx.case(("dsl", repr(inst), repr(spec), repr(groups)))
    js = call_builtin("emit_assembly", [asm]).data
    ctx.check(js == call_builtin("emit_assembly", [asm]).data, "dsl:deterministic", "emit_assembly is not deterministic")
    snap = json.loads(js)
    judge(ctx, snap, "sec", inst, defs, groups, {}, [], spec, {"dsl": repr(groups)})


GROUPS = {"snapshot": (g_snapshot, 900, 15000), "records": (g_records, 800, 8000), "dsl": (g_dsl, 250, 3000)}

if __name__ == "__main__":
    vf.main(globals())
