import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, copy, io, json, logging, math, random, shutil, subprocess, tempfile
import vf

PROP = "C24"
LEVEL = "exploration"
META = dict(
    title="Kinematic chains: every pose is the product of its joints, however reached",
    statement="Transforms compose, invert and act on points and vectors as rigid motions; Euler angles (intrinsic XYZ) and dictionaries reproduce the same motion. The world pose of any frame of any part is the product along its ancestors of the attachment frame, the joint's base transform and its motion (rotation in degrees about, or translation along, the unit axis), then the frame: for every tree, joint type and history of joint changes, additions and queries, i.e. the cache is never stale and queries never change anything. Joint values are clamped to their limits unless asked not to. Relative transforms, ancestors, children, descendants and the all-parts query agree with the tree. Duplicate names, unknown parents and unknown parts raise ValueError and leave the chain as it was; a missing attachment frame means the origin. validate() reports dangling parents, missing frames and cycles, always terminating, and nothing on a sound chain. Exporting and loading gives the same tree, order, joints, frames and poses, independent of the order in the file and of string hashing.",
    over=["inputs", "histories"], q="for all part trees, joints and histories of joint changes and queries",
    why="Assembly clearances and robot poses are read from these transforms; a stale cache or wrong composition order shows only for deep trees after particular sequences of updates.",
    files=["src/yapcad/kinematics/transform.py", "src/yapcad/kinematics/chain.py", "src/yapcad/kinematics/joint.py", "src/yapcad/kinematics/part.py", "src/yapcad/kinematics/frame.py"],
    mech=[("KinematicChain", "src/yapcad/kinematics/chain.py"), ("Transform", "src/yapcad/kinematics/transform.py"), ("Joint", "src/yapcad/kinematics/joint.py")],
    technique="random trees and operation histories with an independent quaternion forward-kinematics oracle recomputed from scratch after every step; serialisation round trips, also under other hash seeds",
    note="Exploration. Joint values and frames are changed through the chain's and part's methods before dependants are queried, as documented; editing a joint object or replacing a frame behind the chain's back is out of scope, as are non-rigid matrices.",
)
RULE = "random transforms; random trees of up to 25 parts with random operation histories; distinct by the recipe"
REQUIRE = {"transform": 800, "gimbal": 40, "pose": 9000, "set": 2000, "clamped": 300, "unclamped": 100, "add-late": 300, "relative": 500, "roundtrip": 200, "shuffled": 100, "refused": 200,
           "cycle": 40, "dangling": 30, "missing-frame": 60, "depth>=5": 60, "hash": 3, "type:revolute": 300, "type:prismatic": 300, "type:cylindrical": 50, "type:spherical": 50, "type:fixed": 300}
WALL_QUICK = 250


def init():
    global K, np
    import numpy as np
    from yapcad import kinematics as K
    logging.disable(logging.WARNING)


# ---- independent rigid motions: (unit quaternion, translation) --------------

def qmul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return (w * p - x * q - y * r - z * s, w * q + x * p + y * s - z * r, w * r - x * s + y * p + z * q, w * s + x * r - y * q + z * p)


def qrot(q, v):
    w, x, y, z = q
    r = qmul(qmul(q, (0.0,) + tuple(v)), (w, -x, -y, -z))
    return r[1:]


def qaxis(axis, deg):
    n = math.sqrt(sum(c * c for c in axis))
    if n < 1e-10:
        return (1.0, 0.0, 0.0, 0.0)
    h = math.radians(deg) / 2
    return (math.cos(h),) + tuple(math.sin(h) * c / n for c in axis)


ID = ((1.0, 0.0, 0.0, 0.0), (0.0, 0.0, 0.0))


def mul(a, b):
    t = qrot(a[0], b[1])
    return (qmul(a[0], b[0]), tuple(x + y for x, y in zip(a[1], t)))


def inv(a):
    w, x, y, z = a[0]
    q = (w, -x, -y, -z)
    return (q, tuple(-c for c in qrot(q, a[1])))


def act(a, p):
    return tuple(x + y for x, y in zip(qrot(a[0], p), a[1]))


def mat(a):
    cols = [qrot(a[0], e) for e in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
    return [[cols[j][i] for j in range(3)] + [a[1][i]] for i in range(3)] + [[0, 0, 0, 1]]


def agree(t, ref, scale=1.0):
    return float(np.abs(t.matrix - np.array(mat(ref))).max()) <= 1e-8 * max(1.0, scale, max(abs(c) for c in ref[1]))


# ---- generators: (Transform, reference) --------------------------------------

def ang(rng):
    return rng.choice([0, 90, -90, 180, 45, 360, rng.uniform(-720, 720), rng.uniform(-180, 180), 1e-5])


def axis(rng):
    while True:
        a = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (0, 0, 5), (1, 1, 1), tuple(rng.uniform(-2, 2) for _ in range(3))])
        if sum(c * c for c in a) > 1e-3:
            return a


def gen_tf(rng, depth=0):
    T = K.Transform
    k = rng.randrange(8 if depth < 2 else 7)
    p = tuple(rng.choice([0.0, rng.uniform(-100, 100), rng.uniform(-1, 1)]) for _ in range(3))
    if k == 0:
        return T.from_translation(*p), (ID[0], p)
    if k == 1:
        a = ang(rng)
        i = rng.randrange(3)
        f = (T.from_rotation_x, T.from_rotation_y, T.from_rotation_z)[i]
        return f(a), (qaxis([j == i for j in range(3)], a), ID[1])
    if k in (2, 3):
        e = [ang(rng) for _ in range(3)]
        q = qmul(qmul(qaxis((1, 0, 0), e[0]), qaxis((0, 1, 0), e[1])), qaxis((0, 0, 1), e[2]))
        if k == 2:
            return T.from_euler_xyz(*e), (q, ID[1])
        return T.from_position_rpy(*p, *e), (q, p)
    if k == 4:
        ax, a = axis(rng), ang(rng)
        return T.from_axis_angle(ax, a), (qaxis(ax, a), ID[1])
    if k == 5:
        return T.identity(), ID
    if k == 6:
        ax, a = axis(rng), ang(rng)
        r = (qaxis(ax, a), p)
        m = mat(r)
        return (T.from_matrix(m) if rng.random() < .5 else T(np.array(m, dtype=float))), r
    a, ra = gen_tf(rng, depth + 1)
    b, rb = gen_tf(rng, depth + 1)
    return a @ b, mul(ra, rb)


def g_transform(ctx, rng):
    t, r = gen_tf(rng)
    u, s = gen_tf(rng)
    ctx.ev("transform")
    ctx.case(repr(mat(r)))
    keep = t.matrix.copy()
    p = tuple(rng.uniform(-50, 50) for _ in range(3))
    ctx.check(agree(t, r), "construct", "a transform is not the rigid motion it was built as", dict(got=t.matrix.tolist(), expected=mat(r)))
    ctx.check(agree(t @ u, mul(r, s)), "compose", "A @ B is not 'first B, then A'")
    ctx.check(agree(t.inverse(), inv(r)), "inverse", "inverse() is not the inverse")
    ctx.check(agree(t @ t.inverse(), ID, 100), "inverse", "T @ T.inverse() is not the identity")
    d = lambda a, b: max(abs(x - y) for x, y in zip(a, b))
    ctx.check(d(t.transform_point(p), act(r, p)) < 1e-8 * 400, "point", "transform_point differs")
    ctx.check(d(t.transform_vector(p), qrot(r[0], p)) < 1e-8 * 400, "vector", "transform_vector differs")
    ctx.check(d(t.translation, r[1]) < 1e-9 * 1e3, "translation", "translation differs")
    e = t.to_euler_xyz()
    gim = abs(abs(e[1]) - 90) < 1e-4
    if gim:
        ctx.ev("gimbal")
    back = K.Transform.from_euler_xyz(*e)
    ctx.check(float(np.abs(back.matrix[:3, :3] - t.matrix[:3, :3]).max()) < (3e-6 if gim else 1e-7), "euler", f"from_euler_xyz(to_euler_xyz()) is another rotation: {e}", dict(matrix=t.matrix.tolist(), back=back.matrix.tolist()))
    dd = json.loads(json.dumps(t.to_dict()))
    ctx.check(float(np.abs(K.Transform.from_dict(dd).matrix - t.matrix).max()) == 0, "dict", "from_dict(to_dict()) differs")
    dd.pop("matrix")
    ctx.check(float(np.abs(K.Transform.from_dict(dd).matrix - t.matrix).max()) < 1e-3 * (1 if gim else 1e-4), "dict", "from_dict of translation and angles differs", dict(d=dd, matrix=t.matrix.tolist()))
    rm = t.rotation_matrix
    rm[0, 0] += 5
    ctx.check((t.matrix == keep).all(), "pure", "an operation changed its operand")
    for bad in ([[1, 0], [0, 1]], np.eye(3)):
        try:
            K.Transform.from_matrix(bad)
            ctx.viol("accepted", "a matrix that is not 4x4 was accepted")
        except ValueError:
            pass
    try:
        t @ 3
        ctx.viol("accepted", "Transform @ 3 was accepted")
    except TypeError:
        pass


# ---- chains ------------------------------------------------------------------

class Ref:
    """name -> dict(parent, frame, base, type, axis, value, lo, hi, frames)"""
    def __init__(self):
        self.p = {}
        self.order = []

    def joint(self, n):
        j = self.p[n]
        t, v = j["type"], j["value"]
        if t in ("revolute", "cylindrical"):
            return mul(j["base"], (qaxis(j["axis"], v), ID[1]))
        if t == "prismatic":
            a = j["axis"]
            l = math.sqrt(sum(c * c for c in a))
            return mul(j["base"], (ID[0], tuple(c / l * v for c in a)))
        return j["base"]

    def frame(self, n, f):
        return self.p[n]["frames"].get(f, ID) if n in self.p else ID

    def world(self, n, f="ORIGIN"):
        steps = []
        while n in self.p:
            steps.append(self.frame(n, f))
            steps.append(self.joint(n))
            n, f = self.p[n]["parent"], self.p[n]["frame"]
        out = ID
        for s in reversed(steps):
            out = mul(out, s)
        return out

    def children(self, n):
        return [c for c in self.order if self.p[c]["parent"] == n]

    def ancestors(self, n):
        out = []
        while n in self.p:
            out.append(n)
            n = self.p[n]["parent"]
        return out + ["GLOBAL_DATUM"]

    def desc(self, n):
        out = []
        for c in self.children(n):
            out += [c] + self.desc(c)
        return out


def add(ctx, rng, ch, ref, deep):
    i = len(ref.order)
    name = f"P{i}" if rng.random() < .9 else f"part {i}/é"
    parent = None if not ref.order or rng.random() < .12 else (ref.order[-1] if rng.random() < deep else rng.choice(ref.order))
    frames = ["ORIGIN"] + ([f for f in ref.p[parent]["frames"] if f != "ORIGIN"] if parent else [])
    pf = rng.choice(frames)
    want = pf
    if rng.random() < .08:
        want, pf = "NOPE", "ORIGIN"
        ctx.ev("missing-frame")
    base, rbase = gen_tf(rng)
    ty = rng.choice(["fixed", "revolute", "revolute", "prismatic", "prismatic", "cylindrical", "spherical"])
    ctx.ev("type:" + ty)
    ax = axis(rng)
    lo, hi = sorted([rng.uniform(-200, 200), rng.uniform(-200, 200)]) if rng.random() < .6 else (-180.0, 180.0)
    v = rng.uniform(-180, 180) if rng.random() < .4 else 0.0
    kw = dict(joint_type=K.JointType(ty), base_transform=base, axis=ax, value=v, min_limit=lo, max_limit=hi)
    extra = {}
    if rng.random() < .5:
        extra = dict(stl_path="a/b.stl", is_printable=False, material="steel é", color=(0.1, 0.2, 1.0), description='say "x"')
    fr, rf = {}, {"ORIGIN": ID}
    early = rng.random() < .4
    pieces = []
    for j in range(rng.choice([0, 0, 1, 2, 3])):
        t, r = gen_tf(rng)
        fn = f"F{j}"
        rf[fn] = r
        if early:
            fr[fn] = K.CoordinateFrame(name=fn, transform=t, description="d")
        else:
            pieces.append((fn, t))
    part = K.KinematicPart(name=name, parent=parent if parent or rng.random() < .7 else "GLOBAL_DATUM", parent_frame=want, joint=K.Joint(f"j{i}", **kw), frames=fr, **extra)
    for fn, t in pieces:
        part.add_frame(fn, t, "late")
    got = ch.add_part(part)
    ctx.check(got is part, "add-returns", "add_part returned something else")
    ref.p[name] = dict(parent=parent or "GLOBAL_DATUM", frame=pf, base=rbase, type=ty, axis=ax, value=v, lo=lo, hi=hi, frames=rf, extra=extra)
    ref.order.append(name)
    return name


def verify(ctx, rng, ch, ref, names=None):
    for n in (names or ref.order):
        f = rng.choice(list(ref.p[n]["frames"]) + ["ORIGIN"])
        w = ref.world(n, f)
        ctx.ev("pose")
        if not ctx.check(agree(ch.get_world_transform(n, f), w, 1e3 * len(ref.order)), "pose", f"world pose of {n}/{f} is not the product along its ancestors",
                         dict(chain=ch.to_dict(False), part=n, frame=f, got=ch.get_world_transform(n, f).matrix.tolist(), expected=mat(w))):
            return False
    return True


def tree(ctx, rng, size):
    ch, ref = K.KinematicChain("robot"), Ref()
    deep = rng.choice([.2, .5, .95])
    for _ in range(size):
        add(ctx, rng, ch, ref, deep)
    return ch, ref, deep


def g_chain(ctx, rng):
    ch, ref, deep = tree(ctx, rng, rng.randint(1, 14))
    log = []
    for _ in range(rng.randint(6, 18)):
        op = rng.choice(["set", "set", "set", "query", "query", "add", "rel", "all", "refuse", "unknown-frame"])
        n = rng.choice(ref.order)
        log.append((op, n))
        if op == "set":
            v = rng.uniform(-400, 400)
            clamp = rng.random() < .75
            if clamp:
                ch.set_joint_value(n, v)
                e = min(max(v, ref.p[n]["lo"]), ref.p[n]["hi"])
                ctx.ev("clamped" if e != v else "set")
            else:
                ch.set_joint_value(n, v, clamp=False)
                e = v
                ctx.ev("unclamped")
            ref.p[n]["value"] = e
            ctx.ev("set")
            ctx.check(ch.get_joint_value(n) == e, "joint-value", f"joint set to {v} (limits {ref.p[n]['lo']}..{ref.p[n]['hi']}, clamp={clamp}) reads {ch.get_joint_value(n)}")
        elif op == "query":
            verify(ctx, rng, ch, ref, [n])
        elif op == "add":
            verify(ctx, rng, ch, ref, [n])
            add(ctx, rng, ch, ref, deep)
            ctx.ev("add-late")
        elif op == "rel":
            m = rng.choice(ref.order)
            f, g = rng.choice(list(ref.p[n]["frames"])), rng.choice(list(ref.p[m]["frames"]))
            e = mul(inv(ref.world(n, f)), ref.world(m, g))
            ctx.ev("relative")
            ctx.check(agree(ch.get_relative_transform(n, m, f, g), e, 1e3 * len(ref.order)), "relative", f"relative transform {n}/{f} -> {m}/{g} differs")
        elif op == "all":
            a = ch.get_all_world_transforms()
            ctx.check(set(a) == set(ref.order) and all(agree(a[k], ref.world(k), 1e3 * len(ref.order)) for k in a), "all-poses", "get_all_world_transforms differs")
        elif op == "unknown-frame":
            ctx.check(agree(ch.get_world_transform(n, "NOPE"), ref.world(n), 1e3 * len(ref.order)), "pose", "an unknown frame is not the part's origin")
        else:
            before = json.dumps(ch.to_dict(False), sort_keys=True)
            for f in (lambda: ch.add_part(K.KinematicPart(name=n)), lambda: ch.add_part(K.KinematicPart(name="new", parent="nobody")), lambda: ch.add_part(K.KinematicPart(name="GLOBAL_DATUM")),
                      lambda: ch.set_joint_value("nobody", 1), lambda: ch.get_joint_value("nobody"), lambda: ch.get_world_transform("nobody"), lambda: ch.get_relative_transform(n, "nobody")):
                try:
                    f()
                    ctx.viol("accepted", "a duplicate or unknown part was accepted")
                except ValueError:
                    ctx.ev("refused")
            ctx.check(json.dumps(ch.to_dict(False), sort_keys=True) == before, "refused-changed", "a refused operation changed the chain")
    ok = verify(ctx, rng, ch, ref)
    ctx.case(repr(log) + json.dumps(ch.to_dict(False)))
    for n in ref.order:
        anc = ref.ancestors(n)
        if len(anc) >= 6:
            ctx.ev("depth>=5")
        ctx.check(ch.get_chain_to_root(n) == anc, "ancestors", f"get_chain_to_root({n}) = {ch.get_chain_to_root(n)}, expected {anc}")
        ctx.check(ch.get_children(n) == ref.children(n), "children", f"get_children({n}) = {ch.get_children(n)}")
        ctx.check(ch.get_all_descendants(n) == ref.desc(n), "descendants", f"get_all_descendants({n}) = {ch.get_all_descendants(n)}")
    ctx.check(ch.validate() == [], "validate", f"a sound chain is reported: {ch.validate()}")
    if ok:
        roundtrip(ctx, rng, ch, ref)


def roundtrip(ctx, rng, ch, ref):
    d = tempfile.mkdtemp(prefix="c24_")
    try:
        path = os.path.join(d, "sub", "chain.json")
        world = rng.random() < .6
        ch.export_json(path, include_world_transforms=world)
        data = json.load(open(path))
        ctx.ev("roundtrip")
        ctx.check(list(data["parts"]) == ref.order and data["name"] == "robot", "export", "exported parts differ")
        if world:
            for n in ref.order:
                if not ctx.check(np.abs(np.array(data["parts"][n]["world_transform"]["matrix"]) - np.array(mat(ref.world(n)))).max() < 1e-5 * len(ref.order) * 100, "export-world", f"exported world transform of {n} differs"):
                    break
        if rng.random() < .5:
            it = list(data["parts"].items())
            rng.shuffle(it)
            data["parts"] = dict(it)
            json.dump(data, open(path, "w"))
            ctx.ev("shuffled")
            b = K.KinematicChain.from_json(path)
            ctx.check(set(b.parts) == set(ch.parts), "load", "loading a chain listed in another order loses parts")
        else:
            b = K.KinematicChain.from_json(path)
            ctx.check([b.get_children(n) for n in ["GLOBAL_DATUM"] + ref.order] == [ch.get_children(n) for n in ["GLOBAL_DATUM"] + ref.order], "load-order", "the children's order changed")
        for n in ref.order:
            x, y = ch.parts[n].to_dict(), b.parts[n].to_dict()
            if not ctx.check(x == y, "load-part", f"part {n} differs after loading", dict(before=x, after=y)):
                return
        verify(ctx, rng, b, ref)
        n = rng.choice(ref.order)
        v = rng.uniform(-90, 90)
        b.set_joint_value(n, v, clamp=False)
        ref.p[n]["value"] = v
        verify(ctx, rng, b, ref)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def g_validate(ctx, rng):
    ch, ref, deep = tree(ctx, rng, rng.randint(3, 10))
    kind = rng.choice(["cycle", "cycle", "dangling", "frame"])
    n = rng.choice(ref.order)
    ctx.case(kind + json.dumps(ch.to_dict(False)))
    if kind == "cycle":
        anc = [n] + [c for c in ref.desc(n)]
        tgt = rng.choice(anc)
        ch.parts[n].parent = tgt
        ch.parts[n].parent_frame = "ORIGIN"
        with limit(20):
            try:
                issues = ch.validate()
            except TimeoutError:
                ctx.viol("validate-hangs", "validate() does not terminate on a circular dependency", dict(part=n, parent=tgt))
                return
        ctx.ev("cycle")
        ctx.check(any("ircular" in i for i in issues), "validate-cycle", f"a circular dependency is not reported: {issues}")
    elif kind == "dangling":
        ch.parts[n].parent = "gone"
        issues = ch.validate()
        ctx.ev("dangling")
        ctx.check(len([i for i in issues if n in i and "gone" in i]) == 1, "validate-parent", f"a missing parent is not reported: {issues}")
    else:
        ch.parts[n].parent_frame = "NOFRAME"
        issues = ch.validate()
        ctx.ev("missing-frame")
        ctx.check(len(issues) == 1 and "NOFRAME" in issues[0] and n in issues[0], "validate-frame", f"a missing frame is not reported exactly once: {issues}")


@contextlib.contextmanager
def limit(sec):
    import signal
    def h(*_):
        raise TimeoutError()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(sec)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


HASH = """
import sys, json, logging, warnings; sys.path.insert(0, sys.argv[1]); warnings.simplefilter('ignore')
from yapcad.kinematics import KinematicChain
logging.disable(logging.WARNING)
c = KinematicChain.from_json(sys.argv[2])
print(json.dumps([list(c.parts), c._children, c.to_dict()]))
"""


def g_hash(ctx, rng):
    ch, ref, deep = tree(ctx, rng, 20)
    d = tempfile.mkdtemp(prefix="c24_")
    try:
        path = os.path.join(d, "c.json")
        ch.export_json(path)
        outs = {subprocess.run([sys.executable, "-c", HASH, os.path.join(vf.REPO, "src"), path], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(h)), timeout=120).stdout for h in (0, 1, 2)}
        ctx.ev("hash")
        ctx.case(json.dumps(ch.to_dict(False)))
        ctx.check(len(outs) == 1 and outs != {""}, "hash-order", "the same file loads differently under another string-hash seed")
    finally:
        shutil.rmtree(d, ignore_errors=True)


GROUPS = {"transform": (g_transform, 1200, 20000), "chain": (g_chain, 500, 8000), "validate": (g_validate, 250, 2500), "hash": (g_hash, 4, 24)}

if __name__ == "__main__":
    vf.main(globals())
