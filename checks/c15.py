import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, io, math, shutil, tempfile
import vf

PROP = "C15"
LEVEL = "exploration"
META = dict(
    title="DXF export draws exactly the given 2D geometry on the given layers",
    statement="write_dxf and write_dxf_multi write a DXF file, readable by ezdxf, in metric millimetres, whose entities are exactly the exported geometry: one LINE per line and polyline segment, one CIRCLE or ARC per circle or arc covering the same sweep (also reversed, wrapped and transformed arcs), one ELLIPSE per ellipse or elliptical arc, point marks at every point, connected line chains that follow catmull-rom and NURBS splines end to end, and all elements of nested geometry lists and Geometry objects, nothing missing and nothing extra, each on its requested layer (the last one repeating) with the requested colour. The path may carry a .dxf suffix or not. Objects that are not 2D geometry are refused (False, no file) and is_2d_geometry tells them apart. Exporting does not modify the geometry.",
    over=["inputs"], q="for all supported 2D figures, nestings, layers, colours and paths",
    why="No test reads a DXF file back; wrong sweep directions, dropped elements or layers depend on the figure.",
    files=["src/yapcad/ezdxf_exporter.py", "src/yapcad/ezdxf_drawable.py", "src/yapcad/drawable.py"],
    mech=[("write_dxf, write_dxf_multi, is_2d_geometry", "src/yapcad/ezdxf_exporter.py"), ("ezdxfDraw.draw_line/draw_arc/draw_ellipse", "src/yapcad/ezdxf_drawable.py"), ("Drawable.draw, thing2color", "src/yapcad/drawable.py")],
    technique="offline checker: the written file is parsed back with ezdxf and matched one-to-one against reference pieces of the figure",
    note="Exploration. XY-plane figures; bezier/b-spline/parabola/hyperbola curves and tilted ellipses are outside the documented export list.",
)
RULE = "random figures from the 2D generators (nested lists, transformed and reversed arcs, ellipses, splines, Geometry objects) on random layers; distinct by figure"
REQUIRE = {"files": 250, "entities": 2500, "arcs": 200, "ellipses": 60, "splines": 40, "layers": 250, "colors": 200, "refusals": 10}


def init():
    global g, sp, dx, ed, ezdxf, G, TMP, poly, geometry
    from yapcad import geom as g, spline as sp, ezdxf_exporter as dx, ezdxf_drawable as ed, poly, geometry
    import ezdxf
    import gen2d as G
    TMP = tempfile.mkdtemp(prefix="c15")


def fini():
    shutil.rmtree(TMP, ignore_errors=True)


def ang(x):
    return x % 360.0


def ents(path, layer=None):
    """entities of a DXF file as reference pieces"""
    doc = ezdxf.readfile(path)
    out = []
    for e in doc.modelspace():
        t, d = e.dxftype(), e.dxf
        at = (d.layer, d.color)
        if t == "LINE":
            out.append(("L", tuple(d.start)[:2], tuple(d.end)[:2], at))
        elif t == "CIRCLE":
            out.append(("C", tuple(d.center)[:2], d.radius, None, at))
        elif t == "ARC":
            out.append(("A", tuple(d.center)[:2], d.radius, (ang(d.start_angle), (d.end_angle - d.start_angle) % 360.0), at))
        elif t == "ELLIPSE":
            c, mj, r = tuple(d.center)[:2], tuple(d.major_axis)[:2], d.ratio
            s, w = d.start_param, d.end_param - d.start_param
            if w <= 0:
                w += math.tau
            out.append(("E", [(c[0] + mj[0] * math.cos(x) - mj[1] * r * math.sin(x), c[1] + mj[1] * math.cos(x) + mj[0] * r * math.sin(x)) for x in (s + w * i / 16 for i in range(17))], at))
        else:
            out.append(("?", t, at))
    return doc, out


def near(a, b, tol=1e-6):
    return abs(a[0] - b[0]) < tol and abs(a[1] - b[1]) < tol


def same(a, b):
    """entity a (file) draws what b (expected) says"""
    if a[0] != b[0] or a[-1] != b[-1]:
        return False
    if a[0] == "L":
        return near(a[1], b[1]) and near(a[2], b[2]) or near(a[1], b[2]) and near(a[2], b[1])
    if a[0] in "CA":
        if not near(a[1], b[1]) or abs(a[2] - b[2]) > 1e-6:
            return False
        if a[0] == "C":
            return True
        (s, w), (s2, w2) = a[3], b[3]
        dw = min(abs(w - w2), abs(abs(w - w2) - 360) if min(w, w2) < 1e-3 else 9)
        return min(abs(s - s2), 360 - abs(s - s2)) < 1e-5 and dw < 1e-5
    if a[0] == "E":
        return all(near(p, q, 1e-5) for p, q in zip(a[1], b[1]))
    return False


def expect(f, at, ps=.1):
    """reference pieces of a figure"""
    if isinstance(f, geometry.Geometry):
        return expect(f.geom, at, ps)
    if G.is_pt(f):
        x, y = f[:2]
        return [("L", (x - ps, y - ps), (x + ps, y + ps), at), ("L", (x - ps, y + ps), (x + ps, y - ps), at), ("C", (x, y), ps, None, at)]
    if G.is_arc(f):
        c, (r, s, e, w) = f[0], f[1]
        if s == 0 and e == 360:
            return [("C", tuple(c[:2]), r, None, at)]
        return [("A", tuple(c[:2]), r, (ang(s), (e - s) % 360.0), at)]
    if f and f[0] == "ellipse":
        return [("E", [tuple(g.ellipse_sample(f, i / 16)[:2]) for i in range(17)], at)]
    if f and f[0] in ("catmullrom", "nurbs"):
        return [("S", f, at)]
    if G.is_line(f) or G.is_poly(f):
        return [("L", tuple(f[i][:2]), tuple(f[i + 1][:2]), at) for i in range(len(f) - 1)]
    out = []
    for x in f:
        out += expect(x, at, ps)
    return out


def compare(ctx, got, want, tag, fig):
    got = list(got)
    bad = [e for e in got if e[0] == "?"]
    ctx.check(not bad, f"{tag}:kind", lambda: f"unexpected entities {bad[:3]}")
    for w in sorted(want, key=lambda w: w[0] == "S"):
        if w[0] == "S":
            chain(ctx, got, w, tag)
            continue
        ctx.ev("entities")
        ctx.ev({"A": "arcs", "C": "arcs", "E": "ellipses"}.get(w[0], "lines"))
        i = next((i for i, e in enumerate(got) if same(e, w)), None)
        if i is None:
            return ctx.viol(f"{tag}:missing:{w[0]}", f"no entity draws {w}; left over: {got[:4]}", repr(fig)[:1500])
        got.pop(i)
    ctx.check(not got, f"{tag}:extra", lambda: f"{len(got)} extra entities, first {got[0]}", repr(fig)[:1500] if got else None)


def chain(ctx, got, w, tag):
    """remove from got the line chain that follows spline w"""
    _, f, at = w
    ctx.ev("splines")
    N = 400
    ev = sp.evaluate_catmullrom if f[0] == "catmullrom" else sp.evaluate_nurbs
    ref = [ev(f, i / N)[:2] for i in range(N + 1)]
    step = max(math.dist(a, b) for a, b in zip(ref, ref[1:]))
    closed = f[2].get("closed", False)
    start, end = tuple(ref[0]), tuple(ref[0] if closed else ref[-1])
    i = next((i for i, e in enumerate(got) if e[0] == "L" and e[-1] == at and near(e[1], start, 1e-5)), None)
    cur, n, total = start, 0, 0.0
    while i is not None:
        e = got.pop(i)
        n += 1
        total += math.dist(e[1], e[2])
        cur = e[2]
        d = min(math.dist(cur, q) for q in ref)
        if not ctx.check(d < step * .6 + 1e-6, f"{tag}:spline:off", lambda: f"chain vertex {cur} is {d} off the curve"):
            return
        if near(cur, end, 1e-5) and n > 2 and not (got and i < len(got) and got[i][0] == "L" and near(got[i][1], cur, 1e-9) and near(got[i][2], cur, 1e-5)):
            break
        i = i if i < len(got) and got[i][0] == "L" and got[i][-1] == at and near(got[i][1], cur, 1e-9) else None
    L = sum(math.dist(a, b) for a, b in zip(ref, ref[1:]))
    ctx.check(near(cur, end, 1e-5) and n >= 4 and L * .9 < total < L * 1.02, f"{tag}:spline", lambda: f"{f[0]} closed={closed}: {n} lines of total length {total} ending at {cur}; the curve has length {L} and ends at {end}", repr(f)[:800])


def figure(rng):
    k = rng.random()
    if k < .45:
        f = G.rfigure(rng)[1]
    elif k < .62:
        a = rng.uniform(1, 6)
        full = rng.random() < .4
        s = rng.uniform(0, 360)
        f = g.ellipse(G.rpt(rng), a, a * rng.uniform(.2, 1), rotation=rng.uniform(-360, 360), **({} if full else {"start": s, "end": rng.choice([s + rng.uniform(5, 350), (s + rng.uniform(5, 350)) % 360])}))
    elif k < .75:
        n = rng.randint(4, 8)
        pts = [G.P(2 * i + rng.uniform(-.5, .5), rng.uniform(-3, 3)) for i in range(n)]
        if rng.random() < .5:
            cl = rng.random() < .4
            f = g.catmullrom(G.rstar(rng, n=n) if cl else pts, closed=cl)
        else:
            f = g.nurbs(pts, degree=rng.choice([2, 3]), weights=[rng.uniform(.5, 2) for _ in pts] if rng.random() < .5 else None)
    elif k < .85:
        cls = rng.randrange(5)
        o = G.rpt(rng)
        f = [lambda: poly.Rect(rng.uniform(1, 5), rng.uniform(1, 5), o), lambda: poly.RoundRect(rng.uniform(4, 6), rng.uniform(4, 6), rng.uniform(.2, 1), o),
             lambda: geometry.Line(G.rline(rng)), lambda: geometry.Arc(G.rarc(rng)), lambda: poly.Polygon(G.rstar(rng))][cls]()
        return f
    else:
        f = [figure(rng) for _ in range(rng.randint(1, 4))]
        return f
    for _ in range(rng.randrange(3)):
        t = rng.randrange(4)
        if t == 0:
            f = g.translate(f, G.rpt(rng)) if not (f and f[0] in ("catmullrom", "nurbs", "ellipse")) else f
        elif t == 1 and G.is_arc(f):
            f = g.rotate(f, rng.uniform(-360, 360))
        elif t == 2 and G.is_arc(f):
            f = g.mirror(f, rng.choice(["xz", "yz"]))
        elif t == 3 and (G.is_arc(f) or G.is_poly(f) or G.is_line(f)):
            f = g.reverseGeomList([f])[0]
    return f


LAYERS = ["PATHS", "DRILLS", "DOCUMENTATION", "0"]


def path(rng):
    b = os.path.join(TMP, f"d{rng.randrange(10**9)}" + rng.choice(["", ".v2", " a"]))
    return rng.choice([(b, b + ".dxf"), (b + ".dxf", b + ".dxf")]) if not b.endswith(".v2") else (b + ".dxf", b + ".dxf")


def snap(f):
    return repr(f.geom if isinstance(f, geometry.Geometry) else [snap(x) if isinstance(x, (list, geometry.Geometry)) else x for x in f] if isinstance(f, list) else f)


def export(ctx, rng):
    arg, out = path(rng)
    if rng.random() < .6:
        f = figure(rng)
        before = snap(f)
        layer = rng.choice(LAYERS)
        ok = dx.write_dxf(f, arg, layer=layer) if rng.random() < .8 else dx.write_dxf(f, arg) and (layer := "PATHS")
        want = expect(f, (layer, 256))
        figs = f
        ctx.ev("layers")
        ctx.check(dx.is_2d_geometry(f) or isinstance(f, geometry.Geometry) or isinstance(f, list) and any(isinstance(x, (geometry.Geometry)) for x in f) or nested_geometry(f), "is2d", lambda: f"is_2d_geometry false for {before[:100]}")
    else:
        figs = [figure(rng) for _ in range(rng.randint(1, 5))]
        before = snap(figs)
        lay = rng.choice(LAYERS) if rng.random() < .3 else [rng.choice(LAYERS) for _ in range(rng.randint(1, len(figs)))]
        ok = dx.write_dxf_multi(figs, arg, lay)
        want = []
        for i, f in enumerate(figs):
            l = lay if isinstance(lay, str) else lay[min(i, len(lay) - 1)]
            want += expect(f, (l, 256))
            ctx.ev("layers")
        f = figs
    ctx.ev("files")
    ctx.case(before[:600])
    if not ctx.check(bool(ok) and os.path.exists(out), "written", lambda: f"export returned {ok}, file {os.path.basename(out)} exists={os.path.exists(out)}", before[:600]):
        return
    ctx.check(snap(f) == before, "mutates", "geometry was modified by the export")
    doc, got = ents(out)
    os.unlink(out)
    ctx.check(doc.header["$INSUNITS"] == 4 and doc.header["$MEASUREMENT"] == 1, "units", "drawing is not in metric millimetres")
    ctx.check(not doc.audit().has_errors, "audit", "ezdxf audit reports errors")
    compare(ctx, got, want, "export", figs)


def nested_geometry(f):
    return isinstance(f, list) and f and (isinstance(f[0], geometry.Geometry) or nested_geometry(f[0]))


def colors(ctx, rng):
    d = ed.ezdxfDraw()
    arg, out = path(rng)
    d.filename = out[:-4]
    cmap, names = d.colormapAUTOCAD, sorted(d.colordict)
    want = []
    for _ in range(rng.randint(3, 10)):
        f = G.rfigure(rng, kinds=["line", "arc", "circle", "open"])[1]
        k = rng.randrange(4)
        if k == 0:
            c = rng.randrange(1, 255)
            i = c
        elif k == 1:
            c = rng.choice(names)
            rgb, i = d.colordict[c]
            if not i:
                i = rgb
        elif k == 2:
            c = [rng.randrange(256) for _ in range(3)]
            i = c
        else:
            c, i = False, 256
        if isinstance(i, list):
            dd = [sum((x - y) ** 2 for x, y in zip(m, i)) if isinstance(m, list) else 1e9 for m in cmap]
            i = {j for j, v in enumerate(dd) if v == min(dd)}
        else:
            i = {i}
        lay = rng.choice(LAYERS + [False])
        d.linecolor = c
        d.layer = lay
        d.draw(f)
        ctx.ev("colors")
        want.append((f, lay or "0", i, c))
    d.display()
    doc, got = ents(out)
    os.unlink(out)
    ctx.case(repr(want)[:500])
    for f, lay, idx, c in want:
        for w in expect(f, None):
            j = next((j for j, e in enumerate(got) if same(e[:-1] + (None,), w)), None)
            if j is None:
                return ctx.viol("colors:missing", f"no entity draws {w}")
            l2, c2 = got.pop(j)[-1]
            ctx.check(l2 == lay, "colors:layer", lambda: f"entity on layer {l2}, requested {lay}")
            ctx.check(c2 in idx or idx == {0} and c2 in (0, 256), "colors:color", lambda: f"colour {c!r} was written as index {c2}, expected {sorted(idx)[:4]}")
    ctx.check(not got, "colors:extra", lambda: f"extra entities {got[:3]}")


def styles(ctx, rng):
    """polystyle and pointstyle decide what is drawn"""
    d = ed.ezdxfDraw()
    arg, out = path(rng)
    d.filename = out[:-4]
    f = rng.choice([G.ropenpoly(rng), G.closed(G.rstar(rng)), G.rpt(rng)])
    ps, pst, sz = rng.choice(["points", "lines", "both"]), rng.choice(["x", "o", "xo"]), rng.uniform(.05, 1)
    d.polystyle, d.pointstyle, d.pointsize = ps, pst, sz
    d.draw(f)
    d.display()
    at = ("0", 256)
    mark = lambda p: [e for e in expect(p, at, sz) if e[0] == "C" and "o" in pst or e[0] == "L" and "x" in pst]
    if G.is_pt(f):
        want = mark(f)
    else:
        want = (expect(f, at) if ps != "points" else []) + ([e for p in f for e in mark(p)] if ps != "lines" else [])
    doc, got = ents(out)
    os.unlink(out)
    ctx.ev("files")
    ctx.case([repr(f)[:300], ps, pst])
    compare(ctx, got, want, "styles", f)


def refuse(ctx, rng):
    from yapcad import geom3d_util as u
    s = u.prism(1, 2, 3)
    for bad in (s, s[1][0], None, "line", 3, {"a": 1}, [G.rline(rng), "x"]):
        arg, out = path(rng)
        with contextlib.redirect_stdout(io.StringIO()):
            r = dx.write_dxf(bad, arg)
        ctx.ev("refusals")
        ctx.check(r is False and not os.path.exists(out), "refuse", lambda: f"write_dxf of {str(bad)[:40]} returned {r}")
        if not isinstance(bad, list) or bad[0] in ("solid", "surface"):
            ctx.check(not dx.is_2d_geometry(bad), "is2d", lambda: f"is_2d_geometry true for {str(bad)[:40]}")


GROUPS = {"export": (export, 500), "colors": (colors, 60), "styles": (styles, 80), "refuse": (refuse, 3, 6)}

if __name__ == "__main__":
    vf.main(globals())
