import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, copy, hashlib, io, json, random, re, shutil, tempfile, uuid
import vf

PROP = "C23"
LEVEL = "exploration"
META = dict(
    title="Metadata: what is recorded on a part is exactly what was said, and stays",
    statement="A solid's or surface's metadata dictionary, once attached, is always the same attached object; it gets the schema, tags, layer default and a UUID entityId (= id) that is unique and never changes. Each helper (tags, layer, units, origin, context, material, manufacturing, design history, mass and envelope constraints, compliance, analysis records, assembly joint/no_cut, bolt patterns, datums, surfaces, keep-outs, operation) changes exactly the fields it was given: None leaves a field alone, numbers become floats, lists are copied, entries append in order, tags and standards never repeat, and values outside the documented vocabularies or malformed vectors are refused with ValueError and nothing recorded. @meta hints - through apply_meta_hint, its raw variant or a DSL command - equal the same helper calls, keep unknown fields verbatim, are idempotent and share nothing between parts; the metadata transform flags exactly the hints the runtime refuses and normalises without changing what is applied. Exporting STL/STEP with metadata writes beside the file a .meta.yaml that reads back as the same metadata plus provenance with the file's SHA-256, and leaves the part alone.",
    over=["inputs", "histories"], q="for all sequences of metadata operations, hints and parts",
    why="Material, interface and operation records drive assembly, analysis and manufacturing; a lost, leaked or silently altered field is invisible in the geometry and shows only for particular call sequences.",
    files=["src/yapcad/metadata.py", "src/yapcad/dsl/meta_apply.py", "src/yapcad/dsl/transforms/metadata.py", "src/yapcad/io/meta_yaml.py", "src/yapcad/io/stl.py", "src/yapcad/io/step.py", "src/yapcad/dsl/runtime/interpreter.py"],
    mech=[("metadata helpers", "src/yapcad/metadata.py"), ("apply_meta_hint", "src/yapcad/dsl/meta_apply.py"), ("MetadataTransform", "src/yapcad/dsl/transforms/metadata.py"), ("dump_metadata_yaml", "src/yapcad/io/meta_yaml.py")],
    technique="random histories of metadata calls with a dictionary reference model compared after every call; hints run through helpers, transform and DSL side by side; sidecars read back and compared",
    note="Exploration. The documented effect of get_*_metadata(create=False) of filling in root defaults is accepted. Atomicity of a partly invalid hint, and of the scalar part of a call that raises TypeError, is not claimed.",
)
RULE = "random helper histories, hint dictionaries, DSL programs with @meta, and exports; distinct by the operation list"
REQUIRE = {"op": 6000, "refused": 500, "hint": 300, "twice": 300, "transform": 300, "transform:error": 60, "dsl": 60, "sidecar": 100, "ids": 20, "aliased": 800,
           "op:datum": 200, "op:bolt": 200, "op:surface": 200, "op:keepout": 200, "op:operation": 200, "op:material": 200, "op:history": 200, "op:analysis": 200, "op:compliance": 200}
WALL_QUICK = 250


def init():
    global M, MA, D, T, Y, STL, STEP, G3, U, NB, yaml
    import yaml
    from yapcad import metadata as M
    from yapcad.dsl import meta_apply as MA
    from yapcad import dsl as D
    from yapcad.dsl.transforms import metadata as T
    from yapcad.io import meta_yaml as Y, stl as STL, step as STEP
    from yapcad import geom3d as G3, geom3d_util as U
    from yapcad.boolean import native as NB


JK = ["axial", "radial", "mixed", "none"]
RING = ["axial", "radial"]
DK = ["bolt_circle", "axis", "plane", "point", "edge"]
SK = ["mating", "bearing", "sealing", "datum", "wear"]
KK = ["volume", "axis", "ring"]
OK_ = ["subtract", "intersect", "union"]
PK = ["strict", "warn", "ignore"]
FK = ["access_panel", "vent", "parachute_door", "fastener_through", "wire_pass", "channel", "pocket", "other"]
TH = ["tap", "clearance", "heat-set", "through"]
HD = ["SHCS", "FHCS", "BHCS", "hex", "stud", "none"]
BAD = ["Axial", "", "bogus", "strict ", "hinge", "slot?", 3]
WORDS = ["alpha", "beta", "PLA", "6061-T6", "rev A", "été", "yes", "null", "1e3", "2026-01-01", "a: b", "#x", "- y", "line\nbreak", "'q'", "~"]


def word(rng):
    return rng.choice(WORDS) + (str(rng.randint(0, 99)) if rng.random() < .5 else "")


def num(rng):
    return rng.choice([rng.randint(-50, 500), rng.uniform(-9, 9), 0, 1e-7, 7.85e3])


def bad(rng, ok):
    return rng.choice([b for b in BAD if b not in ok])


def opt(rng, kw, name, f, p=.5):
    if rng.random() < p:
        kw[name] = f()


def part(rng):
    if rng.random() < .6:
        return U.prism(rng.uniform(1, 5), rng.uniform(1, 5), rng.uniform(1, 5)) if rng.random() < .8 else U.sphere(2.0, depth=1)
    return U.prism(1, 2, 3)[1][rng.randrange(3)]


def is_uuid(s):
    try:
        return isinstance(s, str) and str(uuid.UUID(s)) == s
    except ValueError:
        return False


# ---- reference model -------------------------------------------------------

class Refuse(Exception):
    pass


def need(v, ok, none_ok=True):
    if v is None and none_ok:
        return
    if not any(v == o and type(v) is type(o) for o in ok):
        raise Refuse()


def root(m):
    m.setdefault("schema", "metadata-namespace-v1.1")
    m.setdefault("tags", [])
    if not m.get("layer"):
        m["layer"] = "default"
    return m


def ns(m, k):
    return root(m).setdefault(k, {})


def setf(sec, kw, names, f=lambda v: v):
    for n in names:
        if kw.get(n) is not None:
            sec[n] = f(kw[n])


def r_tags(m, tags):
    t = root(m)["tags"]
    for x in tags:
        if x and x not in t:
            t.append(x)


def r_bolt(m, **k):
    if not k.get("id"):
        raise Refuse()
    need(k["ring"], RING)
    f = k.get("fastener")
    if f is not None:
        if not isinstance(f, dict):
            raise Refuse()
        need(f.get("thread"), TH)
        need(f.get("head"), HD)
    e = dict(id=str(k["id"]), ring=k["ring"], R_mm=float(k["R_mm"]), z_mm=float(k["z_mm"]), count=int(k["count"]))
    setf(e, k, ["theta0_deg"], float)
    if f is not None:
        e["fastener"] = {n: f[n] for n in ("designation", "thread", "head") if f.get(n) is not None}
    setf(e, k, ["tolerance_mm"], float)
    ns(m, "assembly").setdefault("bolt_patterns", []).append(e)


def r_datum(m, **k):
    if not k.get("id"):
        raise Refuse()
    need(k["kind"], DK)
    need(k.get("ring"), RING)
    for n in ("origin_mm", "direction"):
        if k.get(n) is not None and len(k[n]) != 3:
            raise Refuse()
    e = dict(id=str(k["id"]), kind=k["kind"])
    setf(e, k, ["ring"])
    setf(e, k, ["R_mm", "z_mm"], float)
    setf(e, k, ["origin_mm", "direction"], lambda v: [float(x) for x in v])
    ns(m, "assembly").setdefault("datums", []).append(e)


def r_surface(m, **k):
    if not k.get("id"):
        raise Refuse()
    need(k["kind"], SK)
    e = dict(id=str(k["id"]), kind=k["kind"])
    setf(e, k, ["mate_to", "finish"], str)
    setf(e, k, ["tolerance_mm"], float)
    ns(m, "assembly").setdefault("surfaces", []).append(e)


def r_keepout(m, **k):
    if not k.get("id"):
        raise Refuse()
    need(k["kind"], KK)
    if k.get("shape") is not None and not isinstance(k["shape"], dict):
        raise Refuse()
    e = dict(id=str(k["id"]), kind=k["kind"])
    setf(e, k, ["shape"], dict)
    setf(e, k, ["reason"], str)
    ns(m, "assembly").setdefault("keepouts", []).append(e)


def r_operation(m, **k):
    need(k["kind"], OK_)
    need(k.get("policy"), PK)
    need(k.get("feature_kind"), FK)
    s = ns(m, "operation")
    s["kind"] = k["kind"]
    setf(s, k, ["target_filter"], lambda v: [str(x) for x in v])
    setf(s, k, ["priority"], float)
    setf(s, k, ["through", "consume"], bool)
    setf(s, k, ["policy", "feature_kind"])
    setf(s, k, ["feature_id", "stage"], str)


def r_assembly(m, **k):
    need(k.get("joint_kind"), JK)
    s = ns(m, "assembly")
    setf(s, k, ["joint_kind"])
    setf(s, k, ["no_cut"], bool)


# ---- argument generators (may be invalid) -----------------------------------

def wid(rng, p=.03):
    return "" if rng.random() < p else word(rng)


def en(rng, ok, p=.08):
    return bad(rng, ok) if rng.random() < p else rng.choice(ok)


def vec(rng):
    n = 3 if rng.random() < .93 else rng.choice([0, 1, 2, 4])
    v = [num(rng) for _ in range(n)]
    return tuple(v) if rng.random() < .3 else v


def a_bolt(rng):
    k = dict(id=wid(rng), ring=en(rng, RING), R_mm=num(rng), z_mm=num(rng), count=rng.randint(1, 24))
    opt(rng, k, "theta0_deg", lambda: num(rng))
    if rng.random() < .5:
        f = {}
        opt(rng, f, "designation", lambda: word(rng))
        opt(rng, f, "thread", lambda: en(rng, TH))
        opt(rng, f, "head", lambda: en(rng, HD))
        k["fastener"] = f if rng.random() < .95 else "M3"
    opt(rng, k, "tolerance_mm", lambda: num(rng))
    return k


def a_datum(rng):
    k = dict(id=wid(rng), kind=en(rng, DK))
    opt(rng, k, "ring", lambda: en(rng, RING))
    opt(rng, k, "R_mm", lambda: num(rng))
    opt(rng, k, "z_mm", lambda: num(rng))
    opt(rng, k, "origin_mm", lambda: vec(rng))
    opt(rng, k, "direction", lambda: vec(rng))
    return k


def a_surface(rng):
    k = dict(id=wid(rng), kind=en(rng, SK))
    opt(rng, k, "mate_to", lambda: word(rng))
    opt(rng, k, "finish", lambda: word(rng))
    opt(rng, k, "tolerance_mm", lambda: num(rng))
    return k


def a_keepout(rng):
    k = dict(id=wid(rng), kind=en(rng, KK))
    opt(rng, k, "shape", lambda: {word(rng): num(rng) for _ in range(3)} if rng.random() < .95 else [1, 2])
    opt(rng, k, "reason", lambda: word(rng))
    return k


def a_operation(rng):
    k = dict(kind=en(rng, OK_))
    opt(rng, k, "target_filter", lambda: [word(rng) for _ in range(rng.randint(0, 3))])
    opt(rng, k, "priority", lambda: num(rng))
    opt(rng, k, "through", lambda: rng.random() < .5)
    opt(rng, k, "consume", lambda: rng.random() < .5)
    opt(rng, k, "policy", lambda: en(rng, PK))
    opt(rng, k, "feature_id", lambda: word(rng))
    opt(rng, k, "feature_kind", lambda: en(rng, FK))
    opt(rng, k, "stage", lambda: word(rng))
    return k


def a_assembly(rng):
    k = {}
    opt(rng, k, "joint_kind", lambda: en(rng, JK), .7)
    opt(rng, k, "no_cut", lambda: rng.random() < .5, .6)
    return k


def a_material(rng):
    k = {}
    for n in ("name", "standard", "grade", "source"):
        opt(rng, k, n, lambda: word(rng))
    opt(rng, k, "density_kg_m3", lambda: num(rng))
    return k


def r_material(m, **k):
    s = ns(m, "material")
    setf(s, k, ["name", "standard", "grade", "source"])
    setf(s, k, ["density_kg_m3"], float)


def a_manuf(rng):
    k = {}
    for n in ("process", "instructions"):
        opt(rng, k, n, lambda: word(rng))
    for n in ("fixtures", "postprocessing"):
        opt(rng, k, n, lambda: [word(rng) for _ in range(rng.randint(0, 3))])
    opt(rng, k, "layers", lambda: {word(rng): word(rng)})
    return k


def r_manuf(m, **k):
    s = ns(m, "manufacturing")
    setf(s, k, ["process", "instructions"])
    setf(s, k, ["fixtures", "postprocessing"], list)
    setf(s, k, ["layers"], dict)


def a_history(rng):
    k = {}
    for n in ("author", "source", "context", "revision", "timestamp", "notes"):
        opt(rng, k, n, lambda: word(rng))
    opt(rng, k, "tools", lambda: [word(rng) for _ in range(2)])
    return k


def r_history(m, **k):
    s = ns(m, "designHistory")
    setf(s, k, ["author", "source", "context"])
    setf(s, k, ["tools"], list)
    it = s.setdefault("iterations", [])
    e = {n: k[n] for n in ("revision", "timestamp", "notes") if k.get(n) is not None}
    if e:
        it.append(e)


def a_mass(rng):
    k = {}
    opt(rng, k, "max_kg", lambda: num(rng))
    opt(rng, k, "target_kg", lambda: num(rng))
    return k


def r_mass(m, **k):
    setf(ns(m, "constraints").setdefault("mass", {}), k, ["max_kg", "target_kg"], float)


def a_env(rng):
    k = {}
    for n in ("x_mm", "y_mm", "z_mm"):
        opt(rng, k, n, lambda: num(rng))
    return k


def r_env(m, **k):
    setf(ns(m, "constraints").setdefault("envelope", {}), k, ["x_mm", "y_mm", "z_mm"], float)


def a_words(rng):
    return dict(_=[rng.choice(["", "A", "B", "C", word(rng)]) for _ in range(rng.randint(0, 4))])


def r_comp(m, _):
    l = ns(m, "constraints").setdefault("compliance", [])
    for x in _:
        if x and x not in l:
            l.append(x)


def a_record(rng):
    return dict(_={word(rng): num(rng), "n": word(rng)})


def r_record(m, _):
    ns(m, "analysis").setdefault("simulations", []).append(dict(_))


OPS = {
    "bolt": ("add_bolt_pattern", a_bolt, r_bolt), "datum": ("add_datum", a_datum, r_datum),
    "surface": ("add_surface", a_surface, r_surface), "keepout": ("add_keepout", a_keepout, r_keepout),
    "operation": ("set_operation", a_operation, r_operation), "assembly": ("set_assembly", a_assembly, r_assembly),
    "material": ("set_material", a_material, r_material), "manuf": ("set_manufacturing", a_manuf, r_manuf),
    "history": ("add_design_history_entry", a_history, r_history), "mass": ("set_mass_constraint", a_mass, r_mass),
    "env": ("set_envelope_constraint", a_env, r_env), "compliance": ("add_compliance", a_words, r_comp),
    "analysis": ("add_analysis_record", a_record, r_record), "tags": ("add_tags", a_words, lambda m, _: r_tags(m, _)),
    "layer": ("set_layer", lambda r: dict(_=r.choice(["", "cut", "L2", word(r)])), lambda m, _: root(m).__setitem__("layer", _ or "default")),
}


def strip(m):
    """Without ids, and without namespaces or lists that are empty."""
    out = {}
    for k, v in m.items():
        if k in ("entityId", "id") or str(k).startswith("_octree"):
            continue
        if isinstance(v, dict):
            v = {a: b for a, b in v.items() if b != {} and b != []}
            if not v:
                continue
        out[k] = v
    return root(copy.deepcopy(out))


def same(a, b):
    """Equality that also tells True from 1, 1 from 1.0 and tuples from lists."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def scramble(kw):
    """Change every container the caller passed."""
    n = 0
    for v in kw.values():
        if isinstance(v, list):
            v.append("LEAK")
            n += 1
        elif isinstance(v, dict):
            v["LEAK"] = 1
            n += 1
    return n


# ---- groups -----------------------------------------------------------------

def g_history(ctx, rng):
    raw = rng.random() < .35
    others = []
    if raw:
        obj = None
        meta = {} if rng.random() < .6 else {"name": "pre", "tags": ["A"]}
    else:
        obj = part(rng)
        get = M.get_solid_metadata if G3.issolid(obj) else M.get_surface_metadata
        meta = get(obj, create=True)
        other = part(rng)
        oget = M.get_solid_metadata if G3.issolid(other) else M.get_surface_metadata
        others = [(oget(other, create=True), copy.deepcopy(oget(other, create=True)))]
    model = copy.deepcopy({k: v for k, v in meta.items() if k not in ("entityId", "id")})
    ids = (meta.get("entityId"), meta.get("id"))
    if not raw:
        ctx.check(is_uuid(ids[0]) and ids[0] == ids[1], "id", f"attached metadata has ids {ids}")
        ctx.check(get(obj) is meta and get(obj, create=True) is meta, "attached", "reading metadata again gives another dictionary")
    log = []
    for _ in range(rng.randint(5, 22)):
        names = list(OPS) + ([] if raw else ["units", "context", "id", "get"])
        n = rng.choice(names)
        if n == "units":
            if G3.issolid(obj):
                continue
            v = rng.choice(["mm", "in"])
            if rng.random() < .5:
                M.set_surface_units(obj, v)
                model["units"] = v
            else:
                M.set_surface_origin(obj, v)
                model["origin"] = v
        elif n == "context":
            if not G3.issolid(obj):
                continue
            c = {"k": word(rng)}
            if rng.random() < .2:
                try:
                    M.set_solid_context(obj, "text")
                    ctx.viol("accepted", "set_solid_context accepted a string")
                except ValueError:
                    ctx.ev("refused")
            else:
                M.set_solid_context(obj, c)
                model["context"] = c
        elif n == "id":
            f = M.ensure_solid_id if G3.issolid(obj) else M.ensure_surface_id
            ctx.check(f(obj) == ids[0], "id-stable", "ensure_*_id gave another id")
        elif n == "get":
            ctx.check(get(obj, create=rng.random() < .5) is meta, "attached", "the attached dictionary was replaced")
        else:
            fn, gen, ref = OPS[n]
            kw = gen(rng)
            log.append((n, copy.deepcopy(kw)))
            before = copy.deepcopy(meta)
            trial = copy.deepcopy(model)
            try:
                ref(trial, **copy.deepcopy(kw))
                refused = False
            except Refuse:
                refused = True
            pos = [kw["_"]] if "_" in kw else []
            named = {} if pos else kw
            try:
                ret = getattr(M, fn)(meta, *pos, **named)
            except ValueError as e:
                ctx.ev("refused")
                ctx.check(refused, "refused-valid", f"{fn} refused valid arguments: {e}", dict(kw=log[-1]))
                ctx.check(same(strip(before), strip(meta)), "refused-changed", f"{fn} refused its arguments but changed the metadata", dict(kw=log[-1], before=before, after=copy.deepcopy(meta)))
                continue
            ctx.ev("op")
            ctx.ev("op:" + n)
            if refused:
                ctx.viol("accepted", f"{fn} accepted arguments outside the documented vocabulary", dict(kw=log[-1]))
                return
            model = trial
            if n in ("bolt", "datum", "surface", "keepout"):
                key = {"bolt": "bolt_patterns", "datum": "datums", "surface": "surfaces", "keepout": "keepouts"}[n]
                ctx.check(meta["assembly"][key][-1] is ret, "entry-returned", f"{fn} did not return the recorded entry")
            if scramble(named if not pos else {"_": pos[0]}):
                ctx.ev("aliased")
        if not ctx.check(same(strip(model), strip(meta)), "model", f"after {n} the metadata differs from what was recorded",
                         dict(ops=log[-4:], expected=strip(model), got=strip(meta))):
            return
        ctx.check((meta.get("entityId"), meta.get("id")) == ids, "id-stable", "an id changed")
    for o, was in others:
        ctx.check(same(o, was), "leak", "another part's metadata changed", dict(was=was, now=o))
    ctx.case(repr(log))


def g_ids(ctx, rng):
    seen = {}
    keep = []
    for _ in range(30):
        p = part(rng)
        keep.append(p)
        f = M.ensure_solid_id if G3.issolid(p) else M.ensure_surface_id
        i = f(p)
        ctx.check(is_uuid(i) and i not in seen, "id-unique", f"id {i!r} is not a fresh uuid")
        seen[i] = p
        if G3.issolid(p):
            for s in p[1]:
                j = M.ensure_surface_id(s)
                ctx.check(j not in seen, "id-unique", "two entities share an id")
                seen[j] = s
                keep.append(s)
    for w, f in (("solid", M.get_solid_metadata), ("surface", M.get_surface_metadata)):
        for junk in ([], [1, 2], None, "x", {}):
            try:
                f(junk)
                ctx.viol("accepted", f"get_{w}_metadata accepted {junk!r}")
            except ValueError:
                pass
            except Exception as e:
                ctx.viol("accepted", f"get_{w}_metadata({junk!r}) raised {type(e).__name__}: {e}")
    ctx.ev("ids")
    ctx.case(rng.random())


# hints

def gen_hint(rng, dsl=False):
    h = {}
    W = (lambda r: r.choice(["alpha", "beta", "rev A", "x-1", "1e3", "yes"]) + str(r.randint(0, 9))) if dsl else word
    def lst(a):
        out = []
        for _ in range(rng.randint(1, 3)):
            k = a(rng)
            if dsl:
                k = json.loads(json.dumps(k))
                k = dslable(k)
            out.append(k)
        return out
    table = [
        ("assembly.joint_kind", lambda: en(rng, JK, .06)),
        ("assembly.no_cut", lambda: rng.choice([True, False, "true", "no", "YES"])),
        ("assembly.bolt_patterns", lambda: lst(a_bolt)),
        ("assembly.datums", lambda: lst(a_datum)),
        ("assembly.surfaces", lambda: lst(a_surface)),
        ("assembly.keepouts", lambda: lst(a_keepout)),
        ("assembly.future", lambda: [1, W(rng)]),
        ("operation.kind", lambda: en(rng, OK_, .05)),
        ("operation.policy", lambda: en(rng, PK, .05)),
        ("operation.feature_kind", lambda: en(rng, FK, .05)),
        ("operation.target_filter", lambda: rng.choice([[W(rng), W(rng)], "hull, ring", "hull", []])),
        ("operation.priority", lambda: num(rng) if rng.random() < .95 else "high"),
        ("operation.through", lambda: rng.choice([True, False, "true", "false"])),
        ("operation.consume", lambda: rng.choice([True, False, "1", "0"])),
        ("operation.feature_id", lambda: W(rng)),
        ("operation.stage", lambda: W(rng)),
        ("operation.later", lambda: W(rng)),
        ("layer", lambda: W(rng)),
        ("tags", lambda: rng.choice([W(rng), [W(rng), "A", "A"], ["B"]])),
        ("note", lambda: [W(rng), 2]),
        ("vendor.sku", lambda: W(rng)),
        ("vendor.list", lambda: [1, 2, 3]),
    ]
    for k, f in table:
        if rng.random() < .25:
            h[k] = f()
    if any(k.startswith("operation.") for k in h) and rng.random() < .8:
        h.setdefault("operation.kind", rng.choice(OK_))
    items = list(h.items())
    rng.shuffle(items)
    return dict(items)


def dslable(v):
    if isinstance(v, dict):
        return {(re.sub(r"\W", "_", k) or "k") if re.sub(r"\W", "_", k)[:1].isalpha() else "k" + re.sub(r"\W", "_", k): dslable(x) for k, x in v.items()}
    if isinstance(v, list):
        return [dslable(x) for x in v]
    if isinstance(v, str):
        return re.sub(r"[^\w .:/-]", "_", v)
    if isinstance(v, float):
        return round(v, 4)
    return v


def tf(v):
    return v.lower() in ("true", "1", "yes") if isinstance(v, str) else bool(v)


def r_hint(m, hint):
    root(m)
    for key, v in hint.items():
        v = copy.deepcopy(v)
        n, _, f = key.partition(".")
        if not f:
            if n == "layer":
                m["layer"] = str(v)
            elif n == "tags":
                r_tags(m, [str(x) for x in (v if isinstance(v, list) else [v])])
            else:
                m[n] = v
        elif n == "assembly":
            if f == "joint_kind":
                r_assembly(m, joint_kind=v)
            elif f == "no_cut":
                r_assembly(m, no_cut=tf(v))
            elif f in ("bolt_patterns", "datums", "surfaces", "keepouts"):
                r = {"bolt_patterns": r_bolt, "datums": r_datum, "surfaces": r_surface, "keepouts": r_keepout}[f]
                for e in v:
                    r(m, **e)
                    l = m["assembly"][f]
                    if l[-1] in l[:-1]:
                        l.pop()
            else:
                ns(m, "assembly")[f] = v
        elif n == "operation":
            s = ns(m, "operation")
            if f == "kind":
                need(v, OK_)
            elif f == "policy":
                need(v, PK)
            elif f == "feature_kind":
                need(v, FK)
            elif f == "target_filter":
                v = [x.strip() for x in v.split(",") if x.strip()] if isinstance(v, str) else [str(x) for x in v]
            elif f in ("through", "consume"):
                v = tf(v)
            elif f == "priority":
                try:
                    v = float(v)
                except ValueError:
                    raise Refuse()
            elif f in ("feature_id", "stage"):
                v = str(v)
            s[f] = v
        else:
            m.setdefault(n, {})[f] = v


def g_hint(ctx, rng):
    hint = gen_hint(rng)
    orig = copy.deepcopy(hint)
    model = {}
    try:
        r_hint(model, hint)
        refused = False
    except Refuse:
        refused = True
    a, b, rawm = U.prism(1, 2, 3), U.prism(2, 2, 3), {}
    ctx.case(repr(hint))
    for what, call in (("solid", lambda: MA.apply_meta_hint(a, hint)), ("second solid", lambda: MA.apply_meta_hint(b, hint)), ("raw", lambda: MA.apply_meta_hint_to_raw(rawm, hint))):
        try:
            call()
            if refused:
                ctx.viol("hint-accepted", f"apply_meta_hint ({what}) accepted an invalid hint", dict(hint=orig))
                return
        except (ValueError, TypeError) as e:
            if not refused:
                ctx.viol("hint-refused", f"apply_meta_hint ({what}) refused a valid hint: {e}", dict(hint=orig))
                return
            ctx.ev("refused")
            continue
    ctx.ev("hint")
    ctx.check(same(hint, orig), "hint-changed", "applying a hint changed it", dict(before=orig, after=hint))
    if refused:
        return
    for what, m in (("solid", a[4]), ("second solid", b[4]), ("raw", rawm)):
        if not ctx.check(same(strip(model), strip(m)), "hint-model", f"hint applied to {what}: metadata differs from the hint", dict(hint=orig, expected=strip(model), got=strip(m))):
            return
    # containers of one part are its own
    was = copy.deepcopy(b[4])
    def mutate(v):
        if isinstance(v, dict):
            for x in list(v.values()):
                mutate(x)
            v["LEAK"] = 1
        elif isinstance(v, list):
            for x in v:
                mutate(x)
            v.append("LEAK")
    mutate(a[4])
    ctx.ev("aliased")
    ctx.check(same(b[4], was) and same(hint, orig), "hint-shared", "two parts given the same hint share data", dict(hint=orig))
    MA.apply_meta_hint(b, hint)
    ctx.ev("twice")
    ctx.check(same(strip(b[4]), strip(was)), "hint-twice", "applying the same hint twice is not the same as once", dict(hint=orig, once=strip(was), twice=strip(b[4])))


def lit(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return format(v, "f") if isinstance(v, float) else repr(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(lit, v)) + "]"
    return "{" + ", ".join(f'"{k}": {lit(x)}' for k, x in v.items()) + "}"


def source(rng, hint):
    items = list(hint.items())
    decs, i = [], 0
    while i < len(items):
        n = rng.randint(1, 4)
        decs.append("@meta(" + ", ".join(f"{k}={lit(v)}" for k, v in items[i:i + n]) + ")")
        i += n
    return "module m\n\n" + "\n".join(decs) + "\ncommand PART(w: float = 2.0) -> solid:\n    emit box(w, 2.0, 3.0)\n\ncommand WRAP() -> solid:\n    let p: solid = PART(4.0)\n    emit p\n"


def round_hint(h):
    def r(v):
        if isinstance(v, float):
            return float(format(v, "f"))
        if isinstance(v, list):
            return [r(x) for x in v]
        if isinstance(v, dict):
            return {k: r(x) for k, x in v.items()}
        return v
    return {k: dslable(r(v)) if not isinstance(v, (str,)) else dslable(v) for k, v in h.items()}


def g_dsl(ctx, rng):
    hint = round_hint(gen_hint(rng, dsl=True))
    if not hint:
        return
    src = source(rng, hint)
    model = {}
    try:
        r_hint(model, hint)
        refused = False
    except Refuse:
        refused = True
    ctx.case(src)

    r = D.compile_and_run(src, "PART" if rng.random() < .6 else "WRAP", {})
    ctx.ev("dsl")
    if refused:
        ctx.check(not r.success and r.error_message, "hint-accepted", "a DSL command with an invalid @meta hint succeeded", dict(src=src))
        return
    if not ctx.check(r.success, "hint-refused", f"a DSL command with a valid @meta hint failed: {r.error_message}", dict(src=src)):
        return
    sol = r.geometry if getattr(r, "geometry", None) is not None else r.emit_result.data
    m = sol[4]
    drop = set(m) - set(model) - {"entityId", "id"}
    got = {k: v for k, v in m.items() if k not in drop or k in hint}
    ctx.check(same(strip(model), strip(got)), "dsl-hint", "the metadata of the emitted solid is not what @meta says", dict(src=src, expected=strip(model), got=strip(got)))


def g_transform(ctx, rng):
    hint = round_hint(gen_hint(rng, dsl=True))
    if rng.random() < .1:
        hint["assembly.joint_kind"] = rng.choice(["revolute", "fixed", "spherical", "prismatic", "planar", "cylindrical", "universal"])
    if rng.random() < .08:
        hint["operation.feature_kind"] = rng.choice(["slot", "boss", "hole", "rib", "groove"])
    if rng.random() < .1:
        hint[rng.choice(["operation.through", "assembly.no_cut"])] = rng.choice(["maybe", 2.5])
    if rng.random() < .1:
        hint[rng.choice(["assembly.datums", "assembly.keepouts"])] = rng.choice(["x", ["x"]])
    if not hint:
        return
    src = source(rng, hint)
    ctx.case(src)
    mod = D.parse(D.tokenize(src))
    cmd = mod.commands[0]
    if not ctx.check(same(cmd.meta_hint, hint), "hint-parsed", "the parsed hint is not what was written", dict(src=src, got=cmd.meta_hint)):
        return
    with contextlib.redirect_stderr(io.StringIO()):
        import logging
        logging.disable(logging.CRITICAL)
        out = T.MetadataTransform().transform(mod)
        logging.disable(logging.NOTSET)
    ctx.ev("transform")
    diags = T.get_transform_diagnostics(out)
    errs = {d.field for d in diags if d.level == "error"}
    # reference: fields wrong on their own
    exp = set()
    for k, v in hint.items():
        if k == "assembly.joint_kind" and v not in JK:
            exp.add(k)
        elif k == "operation.kind" and v not in OK_ or k == "operation.policy" and v not in PK or k == "operation.feature_kind" and v not in FK:
            exp.add(k)
        elif k in ("assembly.no_cut", "operation.through", "operation.consume") and not isinstance(v, bool) and str(v).lower() not in ("true", "1", "yes", "false", "0", "no"):
            exp.add(k)
        elif k == "operation.priority" and isinstance(v, str):
            exp.add(k)
        elif k in ("assembly.datums", "assembly.keepouts", "assembly.bolt_patterns", "assembly.surfaces") and not (isinstance(v, list) and all(isinstance(e, dict) for e in v)):
            exp.add(k)
    if any(k.startswith("operation.") for k in hint) and "operation.kind" not in hint:
        exp.add("operation.kind")
    legacy = hint.get("assembly.joint_kind") in ("revolute", "prismatic", "spherical", "fixed", "planar", "cylindrical", "universal")
    if legacy:
        ctx.check("assembly.joint_kind" in errs, "transform-joint-vocabulary", f"the transform passes assembly.joint_kind={hint['assembly.joint_kind']!r}, which the runtime refuses", dict(src=src))
        errs.discard("assembly.joint_kind")
        exp.discard("assembly.joint_kind")
    ctx.check(errs == exp, "transform-diagnostics", f"transform errors {sorted(errs)}, expected {sorted(exp)}", dict(src=src))
    ctx.check(all(d.command == "PART" for d in diags), "transform-diagnostics", "a diagnostic names another command")
    warn = {d.field for d in diags if d.level == "warning"}
    expw = {k for k in hint if k in ("assembly.future", "operation.later", "note", "vendor.sku", "vendor.list")}
    if tf(hint.get("assembly.no_cut", False)) and "assembly.no_cut" not in exp and hint.get("operation.kind") == "subtract":
        expw.add("assembly.no_cut")
    ctx.check(warn == expw, "transform-diagnostics", f"transform warnings {sorted(warn)}, expected {sorted(expw)}", dict(src=src))
    if exp:
        ctx.ev("transform:error")
        return
    if legacy:
        return
    # what is applied is the same before and after normalisation
    norm = cmd.meta_hint
    ctx.check(list(norm) == list(hint), "transform-keys", "the transform added or removed keys", dict(src=src, got=norm))
    outs = []
    for h in (hint, norm):
        m = {}
        try:
            MA.apply_meta_hint_to_raw(m, h)
            outs.append(m)
        except (ValueError, TypeError) as e:
            outs.append(type(e).__name__)
    ctx.check(same(outs[0], outs[1]), "transform-changes", "normalising changed what is applied", dict(src=src, before=outs[0], after=outs[1]))
    for k in ("assembly.no_cut", "operation.through", "operation.consume"):
        ctx.check(k not in norm or isinstance(norm[k], bool), "transform-normal", f"{k} is not a bool after the transform")
    snap = copy.deepcopy(norm)
    logging.disable(logging.CRITICAL)
    T.MetadataTransform().transform(mod)
    logging.disable(logging.NOTSET)
    ctx.check(same(cmd.meta_hint, snap), "transform-twice", "the transform is not idempotent", dict(src=src))


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if not str(k).startswith("_octree")}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def g_sidecar(ctx, rng):
    d = tempfile.mkdtemp(prefix="c23_")
    try:
        obj = part(rng)
        solid = G3.issolid(obj)
        bare = rng.random() < .12
        if not bare:
            get = M.get_solid_metadata if solid else M.get_surface_metadata
            meta = get(obj, create=True)
            for _ in range(rng.randint(0, 10)):
                fn, gen, ref = OPS[rng.choice(list(OPS))]
                kw = gen(rng)
                with contextlib.suppress(ValueError):
                    getattr(M, fn)(meta, kw["_"]) if "_" in kw else getattr(M, fn)(meta, **kw)
            if rng.random() < .4:
                meta["context"] = {"t": (1, 2.5), "n": None, "deep": [{"a": [True, "no"]}]}
            if rng.random() < .4:
                with contextlib.suppress(Exception):
                    for s in (obj[1] if solid else [obj]):
                        NB.surface_octree(s)
        idx = 4 if solid else 6
        before = plain(copy.deepcopy(obj[idx])) if len(obj) > idx else None
        geo = plain(copy.deepcopy(obj[:4]))
        stem = rng.choice(["part", "part_CURRENT", "a-b", "p q", "é"])
        ext = rng.choice([".stl", ".stl", ".step"])
        path = os.path.join(d, stem + ext)
        dsl = None
        kw = {}
        if rng.random() < .4:
            dsl = os.path.join(d, "src.dsl")
            if rng.random() < .8:
                open(dsl, "w").write("module m\n" + word(rng))
            kw["source_dsl"] = dsl
        if rng.random() < .4:
            kw["source_command"] = "MAKE"
        emit = rng.random() < .9
        w = STL.write_stl_with_meta if ext == ".stl" else STEP.write_step_with_meta
        res = w(obj, path, emit_sidecar=emit, **kw)
        ctx.case((stem, ext, repr(before), repr(sorted(kw))))
        ctx.check(os.path.isfile(path) and os.path.getsize(path) > 50, "export-file", "no geometry file was written")
        side = os.path.join(d, stem + ".meta.yaml")
        ctx.check(str(Y.sidecar_path_for(path)) == side, "sidecar-path", f"sidecar_path_for gives {Y.sidecar_path_for(path)}")
        if not emit or before is None or not before:
            ctx.check(res is None and not os.path.exists(side), "sidecar-none", f"expected no sidecar, got {res}")
            return
        ctx.ev("sidecar")
        if not ctx.check(res is not None and os.path.realpath(res) == os.path.realpath(side) and os.path.isfile(side), "sidecar-missing", f"no sidecar beside {path}: {res}"):
            return
        try:
            back = Y.load_metadata_yaml(side)
        except Exception as e:
            ctx.viol("sidecar-unreadable", f"the sidecar cannot be read back: {e}", dict(meta=before))
            return
        prov = back.pop("_provenance", None)
        if not ctx.check(same(back, before), "sidecar-roundtrip", "the sidecar does not read back as the part's metadata", dict(meta=before, back=back)):
            return
        sha = lambda p: hashlib.sha256(open(p, "rb").read()).hexdigest()
        if ctx.check(isinstance(prov, dict), "sidecar-provenance", "no _provenance"):
            ctx.check(re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ", str(prov.get("exported_at"))) is not None, "sidecar-provenance", f"exported_at {prov.get('exported_at')!r}")
            ctx.check(prov.get("source_command") == kw.get("source_command"), "sidecar-provenance", "source_command lost")
            if dsl:
                ctx.check(prov.get("source_dsl") == dsl and prov.get("source_dsl_sha256") == (sha(dsl) if os.path.exists(dsl) else None), "sidecar-provenance", f"DSL provenance {prov}")
            else:
                ctx.check(prov.get("geometry_sha256") == sha(path), "sidecar-provenance", "geometry_sha256 is not the hash of the exported file")
        ctx.check(same(plain(obj[idx]), before) and same(plain(obj[:4]), geo) or ext == ".step" and same(plain(obj[idx]), before), "export-changes", "exporting changed the part")
        alt = os.path.join(d, "other.yaml")
        r2 = Y.dump_metadata_yaml(obj, path, yaml_path=alt)
        ctx.check(r2 is not None and os.path.isfile(alt), "sidecar-missing", "an explicit yaml_path was not written")
        try:
            Y.load_metadata_yaml(os.path.join(d, "nope.yaml"))
            ctx.viol("sidecar-missing", "loading a missing sidecar succeeded")
        except FileNotFoundError:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


GROUPS = {"history": (g_history, 700, 9000), "ids": (g_ids, 24, 200), "hint": (g_hint, 600, 8000), "transform": (g_transform, 500, 6000), "dsl": (g_dsl, 120, 1500), "sidecar": (g_sidecar, 200, 2500)}

if __name__ == "__main__":
    vf.main(globals())
