import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, hashlib, io, json, math, pathlib, random, re, shutil, tempfile
import vf

PROP = "C39"
LEVEL = "exploration"
META = dict(
    title="The DSL command line, its packages and its API reference tell the truth",
    statement="`python -m yapcad.dsl` exits 0 exactly when the file checks or the command runs and its output could be made, and otherwise 1 with the reason on stderr and without touching output files or packages. Parameters given as NAME=VALUE reach the command as the declared types; missing, unknown and ill-typed ones are refused. The volume it prints and the STL, STEP or DXF file it writes are those of the emitted geometry. `list` names every command with its parameters, types and result, `check` counts and locates the errors. A package made from DSL holds the emitted geometry, the exact source as a hashed attachment, and module, command, parameters and source signature from which running it again gives the same geometry; it validates, an existing one is replaced only when asked, and a failed run leaves what was there. The introspection API lists exactly the built-ins of the checker: calls with the parameters it states check and calls with others are refused, every type it lists can be declared, and every example it offers checks.",
    over=["inputs", "histories"], q="for all programs, parameters, output formats and histories of runs",
    why="The command line is how designs are built in scripts, and the provenance in packages is what makes them reproducible; a silently ignored parameter builds another part.",
    files=["src/yapcad/dsl/__main__.py", "src/yapcad/dsl/packaging.py", "src/yapcad/dsl/introspection.py", "src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/provenance.py"],
    mech=[("main, cmd_run, cmd_check, cmd_list", "src/yapcad/dsl/__main__.py"), ("package_from_dsl", "src/yapcad/dsl/packaging.py"), ("get_api_reference", "src/yapcad/dsl/introspection.py"), ("Interpreter", "src/yapcad/dsl/runtime/interpreter.py"), ("Provenance", "src/yapcad/dsl/runtime/provenance.py")],
    technique="generated programs with known results run through the real command line; a model of the output directory compared with the file system after every run; packages replayed from their own provenance",
    note="Exploration. Defaults printed by `list` are not judged. A string parameter that looks like a number has to be quoted, as the command line documents no types. `close`, `closeC0` and `closeC1` are keywords that no program can call (see C22's findings) and are left out, as are parameters of unknown type. A request for an unknown or unsuitable format warns and exits 0, as implemented.",
)
RULE = "generated modules, command lines, histories of runs in one directory, and calls from the reference; distinct by source and arguments"
REQUIRE = {"run": 500, "run:ok": 220, "run:bad": 120, "stl": 40, "step": 15, "dxf": 40, "volume": 120, "check": 150, "check:bad": 60, "list": 100, "package": 120, "package:refused": 40, "package:replaced": 15, "replay": 60, "kept": 60, "intro": 500, "intro:refused": 350, "prov": 200, "param": 800}
WALL_QUICK = 200


def init():
    global CLI, D, I, PK, PV, ST, P, V, np, ezdxf, ttmp, g3, md
    import numpy as np, ezdxf
    from yapcad import dsl as D, geom3d as g3, metadata as md
    from yapcad.dsl import __main__ as CLI, introspection as I, packaging as PK, symbols as ST
    from yapcad.dsl.runtime import provenance as PV
    import yapcad.package as P
    from yapcad.package import validator as V
    ttmp = tempfile.mkdtemp(prefix="c39-")


def fini():
    shutil.rmtree(ttmp, ignore_errors=True)


def cli(args):
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["yapcad.dsl"] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = CLI.main()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 1
    finally:
        sys.argv = old
    return rc, out.getvalue(), err.getvalue()


def tree(d):
    return {str(p.relative_to(d)): hashlib.sha256(p.read_bytes()).hexdigest() if p.is_file() else None for p in sorted(pathlib.Path(d).rglob("*"))}


# ---------------------------------------------------------------- programs with known results
def num(rng):
    return rng.choice([rng.randint(1, 9), round(rng.uniform(0.5, 9), 3), 2.0, 10, 1e1, 0.25])


class Cmd:
    """a command: source text, parameters (name, type, default), and a function from bound parameters to the expected result"""

    def __init__(self, rng, name):
        self.name = name
        n = rng.randint(1, 4)
        names = rng.sample(["w", "h", "depth", "count", "label", "flag", "x1", "gap_mm", "R"], n)
        self.params = []
        dflt = False
        for nm in names:
            t = rng.choice(["float", "float", "float", "int", "int", "bool", "string"])
            dflt = dflt or rng.random() < 0.35
            d = None
            if dflt:
                d = {"float": rng.choice([1.5, 4.0]), "int": rng.choice([2, 3]), "bool": rng.random() < 0.5, "string": rng.choice(["a", "x y", ""])}[t]
            self.params.append((nm, t, d))
        self.kind = rng.choice(["solid", "solid", "solid", "solids", "region", "circle", "line", "float", "string", "fail", "deep"])
        self.c = [round(rng.uniform(0.5, 3), 2) for _ in range(6)]
        self.t = [round(rng.uniform(-5, 5), 2) for _ in range(3)]
        self.rec = rng.choice([5, 60, 150])

    def size(self, ref=False):
        """expression for a positive number that depends on all parameters; its value for bound parameters when ref is given"""
        text, val = [str(self.c[0])], self.c[0]
        for k, (n, t, _) in enumerate(self.params):
            w = float(k + 1)
            if t in ("float", "int"):
                text.append("%s * %s" % (n, w))
                val += 0 if ref is False else ref[n] * w
            elif t == "bool":
                text.append("(%s if %s else 0.0)" % (w, n))
                val += 0 if ref is False else (w if ref[n] else 0.0)
            else:
                text.append('(%s if %s == "x y" else 0.5)' % (w, n))
                val += 0 if ref is False else (w if ref[n] == "x y" else 0.5)
        return val if ref is not False else " + ".join(text)

    def source(self):
        lit = lambda t, d: '"%s"' % d if t == "string" else ("true" if d else "false") if t == "bool" else repr(d)
        ps = ", ".join("%s: %s" % (n, t) + ("" if d is None else " = " + lit(t, d)) for n, t, d in self.params)
        ret = {"solid": "solid", "solids": "list<solid>", "region": "region2d", "circle": "circle", "line": "line_segment", "float": "float", "string": "string", "fail": "solid", "deep": "float"}[self.kind]
        self.ret = ret
        L = ["command %s(%s) -> %s:" % (self.name, ps, ret), "    s: float = " + self.size()]
        c, t = self.c, self.t
        if self.kind in ("solid", "fail"):
            if self.kind == "fail":
                L.append('    require s < 0.0, "size must be negative"')
            L.append("    b: solid = box(s, %s, %s)" % (c[1], c[2]))
            L.append("    emit translate(b, %s, %s, %s)" % tuple(t))
        elif self.kind == "solids":
            L.append("    a: solid = box(s, %s, %s)" % (c[1], c[2]))
            L.append("    b: solid = translate(box(%s, %s, s), s + 20.0, 0.0, 0.0)" % (c[3], c[4]))
            L.append("    emit [a, b]")
        elif self.kind == "region":
            L.append("    emit rectangle(s, %s, point(%s, %s))" % (c[1], t[0], t[1]))
        elif self.kind == "circle":
            L.append("    emit circle(point(%s, %s), s)" % (t[0], t[1]))
        elif self.kind == "line":
            L.append("    emit line(point(%s, %s), point(%s + s, %s))" % (t[0], t[1], t[0], t[1] + 1))
        elif self.kind == "float":
            L.append("    emit s")
        elif self.kind == "string":
            L.append('    emit "done"')
        else:
            L.append("    emit REC_%s(%d) + s" % (self.name, self.rec))
            L = ["command REC_%s(n: int) -> float:" % self.name, "    if n <= 0:", "        emit 0.0", "    else:", "        emit REC_%s(n - 1) + 1.0" % self.name, ""] + L
        return "\n".join(L)


def module(rng):
    names = rng.sample(["MAKE_A", "make_b", "Plate", "Zed9", "Q"], rng.randint(1, 3))
    cmds = [Cmd(rng, n) for n in names]
    mod = rng.choice(["demo", "my_part", "M2"])
    src = "module %s\n\n" % mod + "\n\n".join(c.source() for c in cmds) + "\n" * rng.randint(1, 3)
    if rng.random() < 0.2:
        src = src.replace("\n\n", "\n\n# größe \u2300 ünï\n", 1)
    return mod, cmds, src


SPELL = {True: ["true", "True", "TRUE"], False: ["false", "False", "FALSE"]}


def arguments(rng, c):
    """(list of NAME=VALUE, bound values or None when the call has to be refused, reason)"""
    args, bound, bad = [], {}, None
    for n, t, d in c.params:
        if d is not None and rng.random() < 0.5:
            bound[n] = d
            continue
        if t == "float":
            v = num(rng)
            s = repr(v) if rng.random() < 0.8 else " %r " % v
        elif t == "int":
            v = rng.randint(1, 6)
            s = str(v)
        elif t == "bool":
            v = rng.random() < 0.5
            s = rng.choice(SPELL[v])
        else:
            v = rng.choice(["x y", "a=b", "q", "don't", "12"])
            s = rng.choice(['"%s"', "'%s'"]) % v if v == "12" or rng.random() < 0.3 else v
        bound[n] = v
        args.append("%s=%s" % (n, s) if rng.random() < 0.85 else "%s =%s" % (n, s))
    rng.shuffle(args)
    k = rng.random()
    if k < 0.06 and args:
        gone = args.pop()
        nm = gone.split("=")[0].strip()
        d = next(x[2] for x in c.params if x[0] == nm)
        if d is None:
            bad = "missing " + nm
        else:
            bound[nm] = d
    elif k < 0.12:
        args.append(rng.choice(["wdith=3", "extra=1", c.params[0][0] + "_=2"]))
        bad = "unknown"
    elif k < 0.18:
        nm, t, _ = rng.choice(c.params)
        args = [a for a in args if a.split("=")[0].strip() != nm]
        args.append("%s=%s" % (nm, {"float": "wide", "int": "2.5", "bool": "3", "string": "7"}[t]))
        bad = "type of " + nm
    elif k < 0.21:
        args.append("nonsense")
        bad = "format"
    return args, bound, bad


def expected(c, bound, limit=100):
    """None when the command fails"""
    s = c.size(bound)
    if c.kind == "fail":
        return None
    if c.kind == "deep":
        return ("value", s) if c.rec + 1 < limit else (None if c.rec > limit + 2 else "either")
    if c.kind == "solid":
        return "solid", s * c.c[1] * c.c[2], [s, c.c[1], c.c[2]]
    if c.kind == "solids":
        return "solids", s * c.c[1] * c.c[2] + c.c[3] * c.c[4] * s
    if c.kind == "region":
        return "2d", (c.t[0] - s / 2, c.t[1] - c.c[1] / 2, c.t[0] + s / 2, c.t[1] + c.c[1] / 2)
    if c.kind == "circle":
        return "2d", (c.t[0] - s, c.t[1] - s, c.t[0] + s, c.t[1] + s)
    if c.kind == "line":
        return "2d", (c.t[0], c.t[1], c.t[0] + s, c.t[1] + 1)
    return "value", s


def stl(path):
    """volume and box of a binary or ASCII STL"""
    b = open(path, "rb").read()
    n = int.from_bytes(b[80:84], "little") if len(b) >= 84 else -1
    if len(b) == 84 + 50 * n:
        rec = np.frombuffer(b[84:], dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]))
        tri = rec["v"].astype(float)
    else:
        tri = np.array([[float(x) for x in l.split()[1:4]] for l in b.decode().splitlines() if l.strip().startswith("vertex")]).reshape(-1, 3, 3)
    vol = float(np.einsum("ij,ij->i", tri[:, 0], np.cross(tri[:, 1], tri[:, 2])).sum() / 6)
    return vol, tri.reshape(-1, 3).min(axis=0), tri.reshape(-1, 3).max(axis=0)


def dxfbox(path):
    """extent of the entities of a DXF file (lines, circles, arcs of whole circles, polylines)"""
    pts = []
    doc = ezdxf.readfile(path)
    for e in doc.modelspace():
        t = e.dxftype()
        if t == "LINE":
            pts += [e.dxf.start, e.dxf.end]
        elif t in ("CIRCLE", "ARC"):
            c, r = e.dxf.center, e.dxf.radius
            pts += [(c[0] - r, c[1] - r), (c[0] + r, c[1] + r)]
        elif t == "LWPOLYLINE":
            pts += [p[:2] for p in e.get_points()]
        elif t == "POLYLINE":
            pts += [v.dxf.location for v in e.vertices]
        else:
            return None
    return (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts)) if pts else ()


def near(a, b, tol=1e-4):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def write(d, src):
    f = pathlib.Path(d) / "part.dsl"
    f.write_text(src, encoding="utf-8")
    return f


def g_run(ctx, rng):
    mod, cmds, src = module(rng)
    d = pathlib.Path(tempfile.mkdtemp(dir=ttmp))
    try:
        f = write(d, src)
        for _ in range(3):
            run_once(ctx, rng, d, f, src, cmds)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_once(ctx, rng, d, f, src, cmds):
    c = rng.choice(cmds)
    args, bound, bad = arguments(rng, c)
    argv = ["run", f, c.name]
    if rng.random() < 0.04:
        argv[2], bad = "NO_SUCH", "command"
    for a in args:
        argv += [rng.choice(["-p", "--param"]), a]
    limit = 100
    if rng.random() < 0.3 or c.kind == "deep" and rng.random() < 0.6:
        limit = rng.choice([20, 100, 400])
        argv += ["--recursion-limit", limit]
    out = None
    if rng.random() < 0.75:
        pre = {"2d": [".dxf"] * 4}.get((expected(c, bound) or [0])[0], [".stl", ".STL", ".step", ".STEP"])
        suf = rng.choice(pre + [".stl", ".dxf", ".DXF", ".step", ".obj"])
        out = d / ("out%d%s" % (rng.randrange(2), suf))
        argv += [rng.choice(["-o", "--output"]), out]
    want = None if bad else expected(c, bound, limit)
    before = tree(d)
    rc, o, e = cli(argv)
    after = tree(d)
    info = {"source": src, "argv": [str(a) for a in argv[1:]], "rc": rc, "stdout": o[-600:], "stderr": e[-600:], "want": repr(want), "bad": bad}
    ck = lambda b, m: ctx.check(b, "command line", m, info)
    ctx.ev("run")
    ctx.ev("param", len(args))
    ctx.case(("run", src, tuple(map(str, argv[2:-1]))))
    ck("Traceback" not in e + o, "traceback")
    if want == "either":
        return
    if want is None:
        ctx.ev("run:bad")
        ck(rc == 1, "a run that has to be refused exited %s" % rc)
        ck(e.startswith("Error:") and len(e) > 12, "a failed run gives no reason on stderr")
        ck("successful" not in o and "Exported" not in o, "a failed run claims success")
        ck(before == after, "a failed run changed files")
        if bad == "unknown":
            ck("no parameter" in e, "the unknown parameter is not named")
        if bad and bad.startswith("missing"):
            ck(bad.split()[1] in e, "the missing parameter is not named")
        if bad and bad.startswith("type of"):
            ck(bad.split()[2] in e, "the ill-typed parameter is not named")
        if c.kind == "fail" and not bad:
            ck("size must be negative" in e, "the message of the failed require is lost")
        return
    ctx.ev("run:ok")
    if want[0] in ("solid", "solids") and out is not None and out.suffix.lower() == ".dxf":     # solids are not drawn
        ck(rc == 1 and e.startswith("Error:") and "Exported" not in o, "a solid was exported to DXF, or its failure not reported")
        ck(before == after, "a failed export changed files")
        return
    ck(rc == 0 and "Execution successful!" in o, "a run that has to succeed exited %s" % rc)
    kind = want[0]
    m = re.search(r"volume ([-0-9.]+)", o)
    if kind in ("solid", "solids"):
        ctx.ev("volume")
        ck(m is not None and abs(float(m.group(1)) - want[1]) < 0.006 + 1e-6 * want[1], "printed volume differs from the solid's")
        ck(("2 solid(s)" in o) == (kind == "solids"), "printed number of solids")
    else:
        ck(m is None and ("2D geometry" in o) == (kind == "2d"), "the kind of the result is misstated")
    new = {k for k in after if after[k] != before.get(k)}
    suf = out.suffix.lower() if out else None
    makes = out is not None and (suf == ".dxf" and kind != "value" or suf in (".stl", ".step") and kind in ("solid", "solids"))
    ck(("Exported to: %s" % out in o) == makes, "announces an export exactly when it writes one")
    if not makes:
        ck(before == after, "wrote a file it does not announce")
        if out:
            ck(e.startswith("Warning:"), "no warning about an output that was not written")
        return
    ck(set(after) == set(before) | {out.name}, "the output file is missing or others appeared")
    if suf == ".stl":
        ctx.ev("stl")
        vol, lo, hi = stl(out)
        ck(abs(vol - want[1]) < 1e-3 * (1 + want[1]), "volume of the STL file differs")
        if kind == "solid":
            ck(near(hi - lo, want[2], 1e-4), "extent of the STL file differs")
            ck(near((hi + lo) / 2, c.t, 2e-4), "position of the STL file differs")
    elif suf == ".step":
        ctx.ev("step")
        t = out.read_text()
        ck(t.startswith("ISO-10303-21;") and t.rstrip().endswith("END-ISO-10303-21;") and "CARTESIAN_POINT" in t, "not a STEP file")
    elif suf == ".dxf" and kind == "2d":
        ctx.ev("dxf")
        b = dxfbox(out)
        if b is not None:
            ck(near(b, want[1], 1e-4), "extent of the DXF file differs: %s" % (b,))


def g_check(ctx, rng):
    mod, cmds, src = module(rng)
    d = pathlib.Path(tempfile.mkdtemp(dir=ttmp))
    try:
        bad = []
        lines = src.rstrip("\n").split("\n")
        fatal = False
        if rng.random() < 0.6:
            for i in sorted(rng.sample(range(len(lines)), min(len(lines), rng.randint(1, 6))), reverse=True):
                l = lines[i]
                if l.startswith("    s: float"):
                    lines.insert(i + 1, "    e%d: float = %s" % (i, rng.choice(['"text"', "undefined_name%d" % i, "box(1.0, 2.0)"])))
                    bad = [x + 1 if x > i + 1 else x for x in bad] + [i + 2]
        if not bad and rng.random() < 0.3:
            i = rng.choice([k for k, l in enumerate(lines) if l.startswith("    s: float")])
            lines[i] = rng.choice(["    s: float = (1.0", "    s: float = ", "    s: float 3.0", "    s: float = 1.0 @@ 2"])
            fatal = True
        text = "\n".join(lines) + "\n"
        f = write(d, text)
        if rng.random() < 0.05:
            f.unlink()
            fatal = True
        before = tree(d)
        rc, o, e = cli(["check", f])
        info = {"source": text, "rc": rc, "stdout": o[-800:], "stderr": e[-500:], "bad": bad, "fatal": fatal}
        ck = lambda b, m: ctx.check(b, "command line check", m, info)
        ctx.ev("check")
        ctx.case(("check", text))
        ck("Traceback" not in e + o and tree(d) == before, "check changed files or printed a traceback")
        nc = len(cmds) + sum(c.kind == "deep" for c in cmds)
        if not bad and not fatal:
            ck(rc == 0 and o.startswith("OK: part.dsl - %d command(s)" % nc), "a correct file is not accepted")
        else:
            ctx.ev("check:bad")
            ck(rc == 1 and "OK" not in o, "a file with errors is accepted")
            if fatal:
                ck(e.startswith("Error:"), "no reason on stderr")
            else:
                m = re.search(r"with (\d+) error", o)
                found = [int(x) for x in re.findall(r"^  Line (\d+):", o, re.M)]
                ck(m is not None and all(b in found for b in bad), "an error is not located")
                warn = {i + 1 for i, l in enumerate(lines) if l.startswith("command REC_")}      # recursion warnings
                ck(set(found) - warn == set(bad) and int(m.group(1)) == sum(x not in warn for x in found), "errors are counted or located wrongly")
                r2, o2, e2 = cli(["run", f, cmds[0].name])
                ck(r2 == 1 and "Type errors" in e2, "a file that does not check runs")
        if not fatal:
            rc, o, e = cli(["list", f])
            ctx.ev("list")
            info.update(stdout=o[-1500:], rc=rc)
            ck(rc == 0 and "Module: %s\n" % mod in o and "Commands (%d):" % nc in o, "list misstates module or number of commands")
            for c in cmds:
                l = [x for x in o.split("\n") if x.startswith("  %s(" % c.name)]
                ck(len(l) == 1 and l[0].endswith("-> " + c.ret) and all(re.search(r"[(, ]%s: %s\b" % (n, t), l[0]) for n, t, _ in c.params), "list misstates a command")
                pos = [re.search(r"[(, ]%s: %s" % (n, t), l[0]).start() for n, t, _ in c.params]
                ck(pos == sorted(pos), "list reorders parameters")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def g_package(ctx, rng):
    mod, cmds, src = module(rng)
    d = pathlib.Path(tempfile.mkdtemp(dir=ttmp))
    try:
        f = write(d, src)
        pk = d / "pkg"
        for _ in range(4):
            package_once(ctx, rng, d, f, src, mod, cmds, pk)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def extent(ents):
    """axis-parallel box and number of every entity, as stored in the package"""
    out = []
    for e in ents:
        if g3.issolid(e):
            pts = [p for s in e[1] for p in s[1]]
            out.append(("solid", tuple(round(min(p[i] for p in pts), 5) for i in range(3)), tuple(round(max(p[i] for p in pts), 5) for i in range(3)), round(g3.volumeof(e), 4)))
        else:
            out.append(("sketch",))
    return sorted(out)


def package_once(ctx, rng, d, f, src, mod, cmds, pk):
    c = rng.choice(cmds)
    args, bound, bad = arguments(rng, c)
    limit = 100
    argv = ["run", f, c.name, "--package", pk]
    for a in args:
        argv += ["-p", a]
    if c.kind == "deep":
        limit = 400
        argv += ["--recursion-limit", limit]
    name = rng.choice([None, "bracket", "a b ü"])
    ver = rng.choice([None, "2.3.4"])
    descr = rng.choice([None, "some: text"])
    force = rng.random() < 0.5
    for flag, v in (("--name", name), ("--version", ver), ("--description", descr)):
        if v:
            argv += [flag, v]
    if force:
        argv += [rng.choice(["-f", "--force"])]
    want = None if bad else expected(c, bound, limit)
    exists = pk.exists() and any(pk.iterdir())
    before = tree(d)
    rc, o, e = cli(argv)
    after = tree(d)
    info = {"source": src, "argv": [str(a) for a in argv[1:]], "rc": rc, "stdout": o[-600:], "stderr": e[-600:], "want": repr(want), "bad": bad, "existed": exists, "changed": sorted(k for k in set(after) | set(before) if after.get(k, 0) != before.get(k, 0))}
    ck = lambda b, m: ctx.check(b, "package_from_dsl", m, info)
    ctx.case(("pkg", src, tuple(map(str, argv[2:])), exists))
    ok = want is not None and want[0] in ("solid", "solids", "2d") and c.kind not in ("circle", "line") and (force or not exists)
    if c.kind in ("circle", "line") and want is not None and rc == 0:
        ok = force or not exists          # whether bare curves can be stored is not judged
    if not ok:
        ctx.ev("package:refused")
        if exists:
            ctx.ev("kept")
        ck(rc == 1 and e.startswith("Error:"), "a package that cannot be made is not refused")
        ck(before == after, "a refused package changed files")
        if c.kind == "deep" and not bad:
            ck("depth" not in e and "recursion" not in e.lower(), "the recursion limit does not reach a run that packages")
        return
    ctx.ev("package")
    if exists:
        ctx.ev("package:replaced")
    ck(rc == 0 and "Package created at: %s" % pk in o, "a package that can be made is refused")
    man = P.PackageManifest.load(pk)
    m = man.data
    ck(m["name"] == (name or c.name.lower()) and m["version"] == (ver or "1.0.0") and m["description"] == (descr or ""), "manifest states other name, version or description")
    okv, msgs = V.validate_package(pk)
    info["messages"] = repr(msgs)[:500]
    ck(okv, "the package does not validate")
    gen = m["generator"]["dsl"]
    info["generator"] = gen
    ck(gen["module"] == mod and gen["command"] == c.name, "provenance states another module or command")
    ck(set(gen["parameters"]) <= set(bound) and all(type(gen["parameters"][k]) is type(bound[k]) and gen["parameters"][k] == bound[k] or gen["parameters"][k] == bound[k] and not isinstance(bound[k], (bool, str)) for k in gen["parameters"]), "provenance states other parameters")
    given = {a.split("=")[0].strip() for a in args}
    ck(given <= set(gen["parameters"]), "provenance lacks a given parameter")
    att = [a for a in m.get("attachments", []) if a.get("format") == "dsl"]
    ck(len(att) == 1, "the source is attached once")
    data = (pk / att[0]["path"]).read_bytes()
    ck(data.decode("utf-8") == src, "the attached source differs from the file")
    ck(att[0]["hash"] == "sha256:" + hashlib.sha256(data).hexdigest(), "the hash of the attached source is wrong")
    ck(PV.verify_source_signature(src, gen["source_signature"]) and not PV.verify_source_signature(src + "\n#", gen["source_signature"]), "the source signature does not tell the source")
    ents = P.load_geometry(man)
    if want[0] in ("solid", "solids"):
        x = extent(ents)
        info["stored"] = repr(x)
        ck(len(x) == (1 if want[0] == "solid" else 2) and abs(sum(t[3] for t in x) - want[1]) < 1e-3 * (1 + want[1]), "the stored solids are others")
        if want[0] == "solid":
            ck(near([b - a for a, b in zip(x[0][1], x[0][2])], want[2]) and near([(a + b) / 2 for a, b in zip(x[0][1], x[0][2])], c.t, 2e-4), "the stored solid has another place or size")
    else:
        doc = json.loads((pk / "geometry/primary.json").read_text())
        pts = [p for en in doc["entities"] for pl in en.get("polylines", []) for p in pl]
        if c.kind == "region":
            b = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
            ck(near(b, want[1]), "the stored sketch has another extent")
    # replay from the package's own records
    res = D.compile_and_run(data.decode("utf-8"), gen["command"], dict(gen["parameters"]))
    ctx.ev("replay")
    ck(res.success, "the provenance does not run again")
    if want[0] == "solid":
        ck(extent([res.geometry]) == extent(ents), "replaying the provenance gives other geometry")
    if rng.random() < 0.3:
        res = PK.package_from_dsl(src, c.name, dict(gen["parameters"]), pk, name="n", version="1")
        ck(not res.success and "exist" in (res.error_message or "") and tree(d) == after, "an existing package was overwritten unasked")


def g_provenance(ctx, rng):
    ctx.ev("prov")
    params = {k: rng.choice([1, 2.5, "x", True, [1, 2], None, np.array([1.0, 2.0]), (3, 4), {"a": 1}]) for k in rng.sample("abcdef", rng.randint(0, 4))}
    src = "".join(rng.choice(["a", "b ", "\n", "\r\n", "\t", "é"]) for _ in range(rng.randint(1, 20))) + "z"
    extra = {k: rng.choice([1, "t"]) for k in rng.sample(["user", "host"], rng.randint(0, 2))}
    p = PV.create_provenance("m", "C", params, src, "1.2.3", **extra)
    ctx.case(("prov", repr(params), src))
    info = {"params": repr(params), "source": repr(src)}
    ck = lambda b, m: ctx.check(b, "Provenance", m, info)
    q = PV.Provenance.from_dict(json.loads(p.to_json()))
    want = {k: v.tolist() if hasattr(v, "tolist") else list(v) if isinstance(v, tuple) else v for k, v in params.items()}
    ck(q == p and q.parameters == want and q.extra == extra and (q.module_name, q.command_name, q.version) == ("m", "C", "1.2.3"), "provenance does not survive JSON")
    ck(PV.verify_source_signature(src, p.source_signature), "signature does not accept its source")
    ck(PV.verify_source_signature(src.replace("\r\n", "\n"), p.source_signature) and PV.verify_source_signature("\n " + src + " \n", p.source_signature), "signature depends on line endings or surrounding space")
    i = rng.randrange(len(src))
    other = src[:i] + "Q" + src[i + 1:]
    ck(not PV.verify_source_signature(other, p.source_signature) and not PV.verify_source_signature(src, p.source_signature[:-1]), "signature accepts another source")
    if rng.random() < 0.4:
        n, v = rng.choice(["w", "depth"]), rng.choice(["3", "-4", "2.50", "1e3", "true", "FALSE", '"7"', "'a b'", "a=b", "x"])
        got = CLI.parse_param("%s=%s" % (n, v))
        want = {"3": 3, "-4": -4, "2.50": 2.5, "1e3": 1000.0, "true": True, "FALSE": False, '"7"': "7", "'a b'": "a b", "a=b": "a=b", "x": "x"}[v]
        ctx.check(got == (n, want) and type(got[1]) is type(want), "parse_param", "a value is read as something else", {"arg": n + "=" + v, "got": repr(got)})


def errs(src):
    r = D.check(D.parse(D.tokenize(src), source=src))
    return [x.message for x in r.diagnostics if x.severity.value == "error"]


OTHER = {"solid": "string", "float": "string", "int": "string", "string": "solid", "bool": "solid"}


def g_intro(ctx, rng):
    ref = I.get_api_reference()
    if not hasattr(g_intro, "once"):
        g_intro.once = True
        names = set(ST.SymbolTable().get_all_builtins())
        ck = lambda b, m, i=None: ctx.check(b, "introspection", m, i)
        ck(set(ref["functions"]) == names == set(I.list_functions()), "the reference does not list the built-ins of the checker")
        ck(json.loads(I.get_api_as_json()) == json.loads(json.dumps(ref)), "the JSON reference differs")
        ck(sorted(ref["types"]) == I.list_types() and sorted(t for k in range(6) for t in I.list_types(k)) == I.list_types(), "types are listed otherwise by tier")
        ck(I.get_function_info("no_such") is None and I.get_type_info("no_such") is None and "Unknown" in I.describe_function("no_such") and I.get_common_pattern("no_such") is None and I.get_methods_for_type("no_such") == {}, "unknown names are described")
        for cat in ("solid", "math", "curve", "transform", "query"):
            l = I.list_functions(cat)
            ck(l and l == sorted(l) and set(l) <= names, "category %s lists others" % cat)
        ck(all(ref["functions"][n]["return_type"] == "solid" for n in I.list_functions("solid")), "solid functions that return no solid")
        for t in I.list_types():
            e = errs("module m\n\ncommand C(a: %s) -> %s:\n    emit a\n" % (t, t))
            ck(not e, "type %s cannot be declared" % t, e)
            ck(I.get_type_info(t.upper()) == ref["types"][t], "type info of %s" % t)
        for n, ex in I.FUNCTION_EXAMPLES.items():
            ck(n in names, "example for an unknown function " + n)
            e = errs("module m\n\ncommand C(box1: solid, box2: solid, block: solid, bore: solid) -> solid:\n    " + re.sub(r"\((box|cylinder)\b(?!\()", lambda k: "(" + {"box": "block", "cylinder": "bore"}[k.group(1)], re.sub(r", cylinder\b(?!\()", ", bore", ex)) + "\n    emit box1\n")
            ck(not e, "the example for %s does not check" % n, {"example": ex, "errors": e})
        for n in I.list_common_patterns():
            p = I.get_common_pattern(n).strip()
            s = "module m\n" + p + "\n" if "command " in p else "module m\n\ncommand C(width: float, depth: float, height: float, radius: float) -> solid:\n" + "\n".join("    " + l for l in p.splitlines()) + ("" if "emit" in p else "\n    emit empty_solid()") + "\n"
            ck(not errs(s), "pattern %s does not check" % n, p)
        for t, tab in (("solid", ST.SOLID_METHODS), ("arc", ST.CURVE_METHODS), ("Curve", ST.CURVE_METHODS), ("region2d", ST.REGION2D_METHODS), ("transform", ST.TRANSFORM_METHODS)):
            mt = I.get_methods_for_type(t)
            ck(set(mt) == set(tab) and all(len(mt[k]["parameters"]) == len(tab[k].params) for k in mt), "methods of %s" % t)
    n = rng.choice(sorted(ref["functions"]))
    fn = I.get_function_info(n)
    ctx.check(fn == ref["functions"][n], "introspection", "get_function_info differs from the reference", n)
    ctx.check(fn["signature"] in I.describe_function(n) and n in I.describe_function(n), "introspection", "description lacks the signature", n)
    ps = fn["parameters"]
    ctx.check(fn["signature"].startswith(n + "(") and fn["signature"].endswith("-> " + fn["return_type"]) and all("%s: %s" % (p["name"], p["type"]) in fn["signature"] for p in ps), "introspection", "the signature lacks a parameter", fn)
    if n in ("close", "closeC0", "closeC1") or any("<unknown>" in p["type"] for p in ps) or "<unknown>" in fn["return_type"]:
        return
    need = sum("default" not in p for p in ps)

    def call(types, ret):
        return errs("module m\n\ncommand C(%s) -> %s:\n    emit %s(%s)\n" % (", ".join("a%d: %s" % x for x in enumerate(types)), ret, n, ", ".join("a%d" % i for i in range(len(types)))))
    ctx.case(("intro", n, rng.randrange(3)))
    k = rng.randint(need, len(ps))
    types = [p["type"] for p in ps[:k]]
    e = call(types, fn["return_type"])
    info = {"function": n, "signature": fn["signature"], "types": types, "errors": e}
    ctx.ev("intro")
    ctx.check(not e, "introspection", "a call as the reference states it does not check", info)
    if fn["is_variadic"]:
        return
    ctx.ev("intro:refused")
    if need:
        ctx.check(bool(call(types[:need - 1], fn["return_type"])), "introspection", "a call with too few arguments checks", info)
    ctx.check(bool(call([p["type"] for p in ps] + ["float"], fn["return_type"])), "introspection", "a call with too many arguments checks", info)
    if types:
        i = rng.randrange(len(types))
        w = list(types)
        w[i] = OTHER.get(w[i], "string")
        ctx.check(bool(call(w, fn["return_type"])), "introspection", "a call with an argument of another type checks", dict(info, wrong=w))
    other = "string" if fn["return_type"] != "string" else "solid"
    ctx.check(bool(call(types, other)), "introspection", "the reference misstates the result type", info)


GROUPS = {
    "run": (g_run, 330, 3000),
    "check": (g_check, 300, 2500),
    "package": (g_package, 150, 1200),
    "provenance": (g_provenance, 400, 3000),
    "intro": (g_intro, 900, 4000),
}

if __name__ == "__main__":
    vf.main(globals())
