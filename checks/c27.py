import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, logging
import vf

PROP = "C27"
LEVEL = "exploration"
META = dict(
    title="Resolving an assembly applies each marked operation, in order, to its targets",
    statement="resolve_assembly() turns parts and their operation metadata into geometry: for every part listed in a cutter's target_filter, the subtract, union or intersect is applied to that part, in ascending priority (50 when unset; ties in metadata order), and to no other part; the resulting solid is exactly the stated combination of the parts' shapes. Cutters apply with the geometry they had before this resolution (for StagedResolver: before this stage). Consumed cutters disappear unless they are targets themselves; consume=False keeps them unchanged and names them on the target. A cutter without target_filter makes the resolution fail and leaves every part untouched. When a cutter's geometry is missing or the boolean fails, strict records an error on part and result and success is False, warn records a warning, ignore neither; the remaining operations still apply. StagedResolver runs its stages in the declared order, unknown and missing stage tags last, and reports operations, retained cutters, warnings and errors of all stages; with one stage it equals BasicResolver. Inputs are never modified. YAPCAD_ASSEMBLY_RESOLVER selects the resolver unless one is given; unknown names, and staged without stages, are refused.",
    over=["inputs"], q="for all part sets, operation metadata and stage lists",
    why="The resolver decides which holes end up in which part; a cut dropped, applied to the wrong part or in the wrong order is only found after manufacture.",
    files=["src/yapcad/assembly/resolver.py", "src/yapcad/metadata.py", "src/yapcad/geom3d.py"],
    mech=[("BasicResolver, StagedResolver, resolve_assembly", "src/yapcad/assembly/resolver.py"), ("set_operation", "src/yapcad/metadata.py")],
    technique="random assemblies of boxes with random operation metadata; results compared with an exact cell-decomposition model of the specified algorithm",
    note="Exploration. Solids are boxes in general position so that the volume of every combination is known exactly; booleans run through the trimesh/manifold engine (the native one is approximate, see C10). The through flag is not implemented by the resolver and not judged; for StagedResolver no consumed cutter is a target of a later stage (its fate is unspecified).",
)
RULE = "random boxes, operations, stages; distinct by the recipe"
REQUIRE = {"basic": 150, "staged": 150, "op": 900, "part": 1200, "failed": 80, "warned": 60, "ignored": 60, "invalid": 40, "retained": 150, "dropped": 300, "chained": 60, "select": 200, "onestage": 60, "order": 150, "default": 10}
WALL_QUICK = 200
ENG = "trimesh:manifold"


def init():
    global np, RS, MD, makeBox, M3, g3
    import numpy as np
    from yapcad.assembly import resolver as RS
    from yapcad import metadata as MD
    import yapcad.geom3d as g3
    import mesh3 as M3
    logging.disable(logging.CRITICAL)


class World:
    """boxes in general position + exact volumes by coordinate compression"""

    def __init__(self, rng, ids):
        from yapcad.geom3d_util import prism
        self.b = {}
        for i in ids:
            lo = [rng.uniform(-2, 1) for _ in range(3)]
            sz = [rng.uniform(1.5, 3.5) for _ in range(3)]
            self.b[i] = (lo, sz)
        self.solids = {}
        for i, (lo, sz) in self.b.items():
            s = prism(sz[0], sz[1], sz[2])
            self.solids[i] = g3.translatesolid(s, [lo[k] + sz[k] / 2 for k in range(3)] + [1])
        self.ax = [sorted({v for lo, sz in self.b.values() for v in (lo[k], lo[k] + sz[k])}) for k in range(3)]
        d = [np.diff(a) for a in self.ax]
        self.cell = d[0][:, None, None] * d[1][None, :, None] * d[2][None, None, :]
        self.mask = {}
        for i, (lo, sz) in self.b.items():
            m = [np.array([(lo[k] - 1e-12 < x < lo[k] + sz[k] - 1e-12) for x in self.ax[k][:-1]]) for k in range(3)]
            self.mask[i] = m[0][:, None, None] & m[1][None, :, None] & m[2][None, None, :]

    def vol(self, m):
        return float((self.cell * m).sum())

    def first_moment(self, m):
        out = []
        for k in range(3):
            c = np.array([(a + b) / 2 for a, b in zip(self.ax[k], self.ax[k][1:])])
            sh = [1, 1, 1]
            sh[k] = -1
            out.append(float((self.cell * m * c.reshape(sh)).sum()))
        return out


def moment(T):
    a, b, c = T[:, 0], T[:, 1], T[:, 2]
    v = np.einsum("ij,ij->i", a, np.cross(b, c)) / 6
    return [float(x) for x in ((a + b + c) / 4 * v[:, None]).sum(0)]


class Model:
    def __init__(self):
        self.geom = None
        self.applied, self.retained, self.nw, self.ne = [], [], 0, 0


def m_stage(parts, ops):
    """ops: [(cutter, op dict with all defaults resolved)] of one stage, in metadata order"""
    out = {}
    tgt = {}
    for c, op in ops:
        for t in op["target_filter"]:
            tgt.setdefault(t, []).append((op["priority"], c, op))
    for t in tgt:
        tgt[t].sort(key=lambda x: x[0])
    retained = set()
    consumed = {c for c, op in ops if op["consume"]}
    for p, g in parts.items():
        if p not in tgt and p in consumed:
            continue
        r = Model()
        r.geom = g
        for _, c, op in tgt.get(p, []):
            cg = parts.get(c)
            miss = c not in parts
            bad = not miss and (isinstance(cg, str) or isinstance(r.geom, str))
            if miss or bad:
                if op["policy"] == "strict":
                    r.ne += 1
                elif op["policy"] == "warn":
                    r.nw += 1
                if not miss and not op["consume"]:
                    r.retained.append(c)
                continue
            k = op["kind"]
            r.geom = (r.geom & ~cg) if k == "subtract" else (r.geom | cg) if k == "union" else (r.geom & cg)
            r.applied.append(c)
            if not op["consume"]:
                r.retained.append(c)
        out[p] = r
    return out


def empties(parts, seq):
    """true if any intermediate result is empty (then the boolean engine may refuse)"""
    return any(not isinstance(m, str) and not m.any() for m in seq)


def gen(rng, staged):
    n = rng.randint(2, 6)
    ids = [f"p{i}" for i in range(n)] if rng.random() < 0.7 else [f"{rng.choice('xyz')}/{i} part" for i in range(n)]
    rng.shuffle(ids)
    ncut = rng.randint(1, n - 1)
    cut = ids[:ncut]
    stages = [f"s{i}" for i in range(rng.randint(1, 4))]
    rng.shuffle(stages)
    ops = {}
    miss = set()
    for c in cut:
        op = {"kind": rng.choice(["subtract", "subtract", "union", "intersect"])}
        pool = [i for i in ids if i != c]
        if rng.random() < 0.75:
            pool = [i for i in pool if i not in cut]
        op["target_filter"] = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if rng.random() < 0.1:
            op["target_filter"].append("absent-part")
        if rng.random() < 0.8:
            op["priority"] = rng.choice([10, 20, 50, 50, 49.5, 90, 0, -3])
        if rng.random() < 0.6:
            op["consume"] = rng.random() < 0.5
        if rng.random() < 0.6:
            op["policy"] = rng.choice(["strict", "warn", "ignore"])
        if rng.random() < 0.7:
            op["stage"] = rng.choice(stages + ["nowhere"])
        if rng.random() < 0.08:
            miss.add(c)
        ops[c] = op
    bad = {c for c in cut if c not in miss and rng.random() < 0.12}
    order = ids[:]
    rng.shuffle(order)
    morder = ids[:]
    rng.shuffle(morder)
    return ids, cut, stages, ops, miss, bad, order, morder


def full(op):
    return dict(kind=op["kind"], target_filter=op["target_filter"], priority=op.get("priority", 50), consume=op.get("consume", True), policy=op.get("policy", "strict"), stage=op.get("stage"))


def g_resolve(ctx, rng):
    staged = rng.random() < 0.55
    ids, cut, stages, ops, miss, bad, order, morder = gen(rng, staged)
    W = World(rng, ids)
    order = [i for i in order if i not in miss]
    parts = {i: ("broken" if i in bad else W.solids[i]) for i in order}
    masks = {i: ("broken" if i in bad else W.mask[i]) for i in order}
    metas = {}
    for i in morder:
        m = MD.get_solid_metadata(W.solids[i], create=True) if rng.random() < 0.5 else {}
        m = copy.deepcopy(m)
        if i in ops:
            MD.set_operation(m, **{k: v for k, v in ops[i].items()})
        metas[i] = m
    recipe = dict(staged=staged, ids=ids, stages=stages, ops=ops, miss=sorted(miss), bad=sorted(bad), order=order, morder=morder)
    invalid = rng.random() < 0.08
    if invalid:
        c = rng.choice(cut)
        if rng.random() < 0.5:
            metas[c]["operation"].pop("target_filter")
        else:
            metas[c]["operation"]["target_filter"] = []
    snap = copy.deepcopy((parts, metas))
    res = RS.StagedResolver(stages) if staged else RS.BasicResolver()
    one = staged and len(stages) == 1
    out = RS.resolve_assembly(parts, metas, resolver=res, boolean_engine=ENG)
    ctx.check((parts, metas) == snap, "mutated", "resolve_assembly changed its inputs", recipe)
    ctx.ev("staged" if staged else "basic")
    ctx.case(("resolve", repr(recipe)))
    if invalid:
        ctx.ev("invalid")
        ok = not out.success and out.errors and list(out.parts) == order and all(out.parts[p].geometry is parts[p] or out.parts[p].geometry == parts[p] for p in order) and not any(r.applied_operations for r in out.parts.values())
        ctx.check(ok, "invalid", "a cutter without target_filter did not fail the resolution with all parts untouched", recipe)
        ctx.check(any(c in e for e in out.errors), "invalid:name", "the error does not name the cutter", recipe)
        return
    # model
    oplist = [(i, full(ops[i])) for i in morder if i in ops]
    acc = {}
    if not staged:
        cur = m_stage(masks, oplist)
        acc = cur
        total = cur
    else:
        cur = dict(masks)
        consumed_at = {}
        for si, s in enumerate(stages):
            b = [(c, o) for c, o in oplist if (o["stage"] if o["stage"] in stages else stages[-1]) == s]
            if not b:
                continue
            for c, o in b:
                if o["consume"]:
                    consumed_at[c] = si
            # unspecified: a consumed cutter targeted in a later stage
            for c, o in b:
                for t in o["target_filter"]:
                    if t in consumed_at and consumed_at[t] < si:
                        return
            r = m_stage(cur, b)
            for p, x in r.items():
                a = acc.setdefault(p, Model())
                a.applied = a.applied + x.applied
                a.retained = a.retained + x.retained
                a.nw += x.nw
                a.ne += x.ne
                a.geom = x.geom
            cur = {p: x.geom for p, x in r.items()}
            if any(not isinstance(g, str) and not g.any() for g in cur.values()):
                return
        total = {p: acc.get(p) or Model() for p in cur}
        for p in total:
            total[p].geom = cur[p]
        # errors on parts consumed later still count for success
    if any(not isinstance(x.geom, str) and not x.geom.any() for x in total.values()):
        return  # empty solids: not judged
    # an empty intermediate followed by a union would also be refused by the engine
    for t in {t for _, o in oplist for t in o["target_filter"]}:
        if t in masks and not isinstance(masks[t], str):
            kinds = [o["kind"] for _, o in oplist if t in o["target_filter"]]
            if "union" in kinds and len(kinds) > 1 and len(set(kinds)) > 1:
                # replay looking for empty steps
                seq = empties_of(masks, oplist, stages if staged else None, t)
                if seq:
                    return
    if one:
        ctx.ev("onestage")
        o2 = RS.BasicResolver().resolve(parts, metas, boolean_engine=ENG)
        f = lambda o: {p: (r.geometry if isinstance(r.geometry, str) else round(M3.volume(M3.tris(r.geometry)), 6), r.applied_operations, r.retained_cutters, len(r.warnings), len(r.errors)) for p, r in o.parts.items()}
        ctx.check(f(out) == f(o2) and out.success == o2.success, "onestage", "StagedResolver with one stage differs from BasicResolver", recipe)
    ctx.check(set(out.parts) == set(total), "parts", lambda: f"parts {sorted(out.parts)}, expected {sorted(total)}", recipe)
    for c in cut:
        if c in parts:
            ctx.ev("retained" if c in total else "dropped")
    nerr = 0
    for p, w in total.items():
        g = out.parts.get(p)
        if g is None:
            continue
        ctx.ev("part")
        ctx.ev("op", len(w.applied))
        if len(w.applied) > 1:
            ctx.ev("order")
        if p in ops and w.applied:
            ctx.ev("chained")
        nerr += w.ne
        ctx.check(g.part_id == p, "part:id", "part_id differs from its key", recipe)
        ctx.check(g.applied_operations == w.applied, "applied", lambda: f"{p}: applied {g.applied_operations}, expected {w.applied}", recipe)
        ctx.check(sorted(g.retained_cutters) == sorted(w.retained), "retained", lambda: f"{p}: retained {g.retained_cutters}, expected {w.retained}", recipe)
        ctx.check(len(g.errors) == w.ne and len(g.warnings) == w.nw, "policy", lambda: f"{p}: errors {g.errors}, warnings {g.warnings}; expected {w.ne} and {w.nw}", recipe)
        if isinstance(w.geom, str) or isinstance(g.geometry, str):
            ctx.check(g.geometry == w.geom if isinstance(w.geom, str) else False, "geometry", f"{p}: geometry of a broken part changed", recipe)
            continue
        T = M3.tris(g.geometry)
        v, wv = M3.volume(T), W.vol(w.geom)
        fm, wf = moment(T), W.first_moment(w.geom)
        ctx.check(abs(v - wv) < 1e-4 * (1 + wv) and all(abs(a - b) < 1e-3 * (1 + wv) for a, b in zip(fm, wf)), "geometry", lambda: f"{p}: volume {v}, expected {wv}; moments {fm}, {wf}; applied {w.applied}", recipe)
        if not w.applied:
            ctx.check(g.geometry == snap[0][p], "untouched", f"{p}: no operation, but the geometry changed", recipe)
    wok = all_errors(masks, oplist, stages if staged else None) == 0
    ctx.check(out.success == wok and bool(out.errors) == (not wok), "success", lambda: f"success={out.success}, errors={out.errors}, expected success={wok}", recipe)
    pol = {o["policy"] for c, o in oplist if (c in miss or c in bad)}
    for k, e in (("strict", "failed"), ("warn", "warned"), ("ignore", "ignored")):
        if k in pol:
            ctx.ev(e)


def stages_of(oplist, stages):
    if stages is None:
        return [oplist]
    return [[(c, o) for c, o in oplist if (o["stage"] if o["stage"] in stages else stages[-1]) == s] for s in stages]


def all_errors(masks, oplist, stages):
    cur, n = dict(masks), 0
    for b in stages_of(oplist, stages):
        if not b:
            continue
        r = m_stage(cur, b)
        n += sum(x.ne for x in r.values())
        cur = {p: x.geom for p, x in r.items()}
    return n


def empties_of(masks, oplist, stages, t):
    cur = dict(masks)
    for b in stages_of(oplist, stages):
        if not b:
            continue
        seq = sorted([(o["priority"], i) for i, (c, o) in enumerate(b) if t in o["target_filter"]])
        g = cur.get(t)
        for _, i in seq:
            c, o = b[i]
            cg = cur.get(c)
            if g is None or cg is None or isinstance(cg, str) or isinstance(g, str):
                continue
            k = o["kind"]
            g = (g & ~cg) if k == "subtract" else (g | cg) if k == "union" else (g & cg)
            if not g.any():
                return True
        cur = {p: x.geom for p, x in m_stage(cur, b).items()}
    return False


def g_select(ctx, rng):
    W = World(rng, ["t", "c"])
    m = {}
    MD.set_operation(m, kind="subtract", target_filter=["t"], stage=rng.choice([None, "a"]))
    parts, metas = {"t": W.solids["t"], "c": W.solids["c"]}, {"t": {}, "c": m}
    want = W.vol(W.mask["t"] & ~W.mask["c"])
    if want <= 0 or not (W.mask["t"] & W.mask["c"]).any():
        return
    env = rng.choice([None, "basic", "BASIC", "staged", "Staged", "kinematic", "nosuch", ""])
    expl = rng.choice([None, None, "basic", "staged"])
    ctx.ev("select")
    ctx.case(("select", env, expl, round(want, 9)))
    old = os.environ.pop("YAPCAD_ASSEMBLY_RESOLVER", None)
    olde = os.environ.pop("YAPCAD_BOOLEAN_ENGINE", None)
    try:
        if env is not None:
            os.environ["YAPCAD_ASSEMBLY_RESOLVER"] = env
        # engine: argument or environment
        kw = {"boolean_engine": ENG}
        if rng.random() < 0.5:
            os.environ["YAPCAD_BOOLEAN_ENGINE"] = ENG
            kw = {}
            ctx.ev("default")
        r = None if expl is None else RS.BasicResolver() if expl == "basic" else RS.StagedResolver(["a", "b"])
        try:
            out = RS.resolve_assembly(parts, metas, resolver=r, **kw)
            err = None
        except ValueError as ex:
            out, err = None, ex
    finally:
        for k, v in (("YAPCAD_ASSEMBLY_RESOLVER", old), ("YAPCAD_BOOLEAN_ENGINE", olde)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    good = expl is not None or env is None or env.lower() == "basic"
    ctx.check((err is None) == good, "select", lambda: f"env={env} explicit={expl}: {err}")
    if out is not None:
        v = M3.volume(M3.tris(out.parts["t"].geometry)) if "t" in out.parts else 0
        ctx.check(out.success and abs(v - want) < 1e-4 * (1 + want) and set(out.parts) == {"t"}, "select:result", lambda: f"volume {v}, expected {want}; success {out.success} {out.errors}")
    for f in (lambda: RS.StagedResolver([]), lambda: RS.KinematicResolver()):
        try:
            f()
            ctx.viol("select:refuse", "StagedResolver without stages or KinematicResolver accepted")
        except (ValueError, NotImplementedError):
            pass
    ctx.check(RS.get_resolver("basic") is RS.BasicResolver and RS.get_resolver("staged") is RS.StagedResolver and RS.get_resolver("nosuch") is None, "registry", "get_resolver wrong")


GROUPS = {"resolve": (g_resolve, 1500, 20000), "select": (g_select, 300, 3000)}

if __name__ == "__main__":
    vf.main(globals())
