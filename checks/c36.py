"""C36: involute gears and 3D text have the geometry asked for."""
import copy, json, math, os, sys
import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

PROP = "C36"
LEVEL = "exploration"
META = dict(
    title="Involute gears and 3D text have exactly the geometry asked for",
    statement="make_gear_figure(m, z, alpha, bottom_type, involute_step) returns a closed, counter-clockwise, simple polygon with z identical teeth: its tips lie on the addendum circle (pitch diameter z*m plus 2m), its root on the dedendum circle (minus 2.5m), and at every radius between the base (or root) circle and the tip the flanks are the involute of the base circle, so a tooth is pi*m/2 thick on the pitch circle; a point is inside exactly when this tooth shape contains it; the reported diameters and radii are those values and bad parameters are refused. Text in the block font consists, for every string, of exactly the font's cells placed character by character at the requested height and spacing, whatever the letter case, with a box for unknown characters; text_width is its extent, validate_text_fit, calculate_text_height_for_width and text_solid_fitted agree with it and keep text within the width unless the minimum height forbids. TrueType text follows the glyph outlines with their curves and holes (area equal to the rendered glyph's), at the font's advances. Text solids are closed, outward, exactly depth thick and centred where asked; text_on_surface stands on the surface, from margin to margin+depth along its normal, centred, upright and unmirrored, and engrave_text removes exactly the strokes to the depth asked for on faces of any axis direction.",
    over=["inputs"], q="for all gear parameters, strings, fonts, sizes, surfaces and faces",
    why="The tests look at one gear and a handful of strings and only at vertex counts, bounding boxes and that a solid comes back.",
    files=["src/yapcad/contrib/figgear.py", "src/yapcad/text3d.py"],
    mech=[("gear outline and its reported radii", "src/yapcad/contrib/figgear.py"), ("block font layout, text_width and the fit functions", "src/yapcad/text3d.py"), ("TrueType outlines, holes and advances", "src/yapcad/text3d.py"), ("text_on_surface and engrave_text placement", "src/yapcad/text3d.py")],
    technique="geometry monitors on generated outlines and solids against the analytic involute, a raster of the block font, freetype's own rendering, and winding numbers of the solids",
    note="Exploration. Gears whose teeth would be pointed or have no gap at the base circle are not generated. Glyphs composed of touching contours, kerning and the in-plane rotation of engravings on side faces are not claimed; engraving is decided with the manifold engine and with characters of separate strokes.",
)
RULE = "random gears over module, teeth, pressure angle, step and bottom type; random strings over the supported and unsupported characters, fonts, sizes and placements; distinct by parameters"
REQUIRE = {"gears": 60, "flank_points": 5000, "memberships": 2000, "strings": 150, "cells": 2000, "fits": 100, "glyphs": 100, "placed": 60, "engraved": 20, "refusals": 20}
WALL_QUICK = 400
DJ = "/usr/share/fonts/truetype/dejavu"


def init():
    global g, g3, GF, T, M, U, FONTS, freetype
    import mesh3 as M
    from yapcad import geom as g, geom3d as g3, geom3d_util as U
    from yapcad.contrib import figgear as GF
    from yapcad import text3d as T
    try:
        import freetype
        FONTS = [os.path.join(DJ, f) for f in sorted(os.listdir(DJ)) if f.endswith(".ttf")]
    except (ImportError, OSError):
        FONTS = []


def inv(a):
    return math.tan(a) - a


# ---------------------------------------------------------------- gears

def crosses(P):
    """index pair of two properly crossing edges of the closed polygon P, or None"""
    A, B = P, np.roll(P, -1, 0)
    n = len(P)
    lo, hi = np.minimum(A, B), np.maximum(A, B)
    for i in range(n):
        j = np.where((lo[i + 1:, 0] <= hi[i, 0]) & (hi[i + 1:, 0] >= lo[i, 0]) & (lo[i + 1:, 1] <= hi[i, 1]) & (hi[i + 1:, 1] >= lo[i, 1]))[0] + i + 1
        if not len(j):
            continue
        d = B[i] - A[i]
        c1 = d[0] * (A[j, 1] - A[i, 1]) - d[1] * (A[j, 0] - A[i, 0])
        c2 = d[0] * (B[j, 1] - A[i, 1]) - d[1] * (B[j, 0] - A[i, 0])
        e = B[j] - A[j]
        c3 = e[:, 0] * (A[i, 1] - A[j, 1]) - e[:, 1] * (A[i, 0] - A[j, 0])
        c4 = e[:, 0] * (B[i, 1] - A[j, 1]) - e[:, 1] * (B[i, 0] - A[j, 0])
        k = np.where((c1 * c2 < -1e-16) & (c3 * c4 < -1e-16))[0]
        if len(k):
            return i, int(j[k[0]])
    return None


def inside(P, q):
    x, y = P[:, 0], P[:, 1]
    X, Y = np.roll(x, -1), np.roll(y, -1)
    c = ((y > q[1]) != (Y > q[1]))
    with np.errstate(divide="ignore", invalid="ignore"):
        xi = x + (q[1] - y) * (X - x) / (Y - y)
    return bool(np.sum(c & (xi > q[0])) % 2)


def gear(ctx, rng):
    while True:
        m = round(10 ** rng.uniform(-.5, .9), 3)
        z = rng.choice([rng.randint(7, 30), rng.randint(31, 60), rng.randint(61, 220)])
        al = rng.choice([20.0, 20.0, 14.5, 25.0, rng.uniform(14, 27)])
        a = math.radians(al)
        rp, ra, rd = z * m / 2, z * m / 2 + m, z * m / 2 - 1.25 * m
        rb = rp * math.cos(a)
        thick = lambda r: math.pi / z + 2 * (inv(a) - inv(math.acos(min(1, rb / r))))
        if thick(ra) * ra > .12 * m and (2 * math.pi / z - thick(max(rb, rd))) * rd > .1 * m:
            break
    bt = rng.choice(["spline", "line", "LINE", "Spline"])
    kw = {}
    if rng.random() < .7:
        kw["involute_step"] = rng.uniform(.05, .8) * m
    if rng.random() < .5:
        kw["spline_division_num"] = rng.randint(1, 12)
    key = [m, z, al, bt, kw]
    ctx.case(key)
    ctx.ev("gears")
    prof, bp = GF.make_gear_figure(m, z, al, bt, **kw)
    P = np.array(prof, float)
    v = lambda mech, msg: ctx.viol("gear:" + mech, f"m={m} z={z} alpha={al} {bt} {kw}: {msg}", key)
    want = {"addendum": ra, "pitch": rp, "base": rb, "dedendum": rd}
    for k, r in want.items():
        for n, f in (("radius_", 1), ("diameter_", 2)):
            if abs(bp.get(n + k, math.nan) - r * f) > 1e-9 * r or n + k not in bp:
                v("blueprint", f"{n}{k} is {bp.get(n + k)}, expected {r * f}")
    if tuple(prof[0]) != tuple(prof[-1]):
        v("closed", "the outline is not closed")
    P = P[:-1]
    keep = np.linalg.norm(P - np.roll(P, 1, 0), axis=1) > 1e-9 * ra
    P = P[keep]
    x = crosses(P)
    if x:
        v("simple", f"edges {x} of the outline cross: {P[x[0]].tolist()}, {P[x[1]].tolist()}")
        return
    ar = float(np.sum(P[:, 0] * np.roll(P[:, 1], -1) - np.roll(P[:, 0], -1) * P[:, 1]) / 2)
    if ar <= 0:
        v("ccw", f"signed area {ar}")
    R, TH = np.hypot(P[:, 0], P[:, 1]), np.arctan2(P[:, 1], P[:, 0])
    tol = 1e-7 * ra
    if abs(R.max() - ra) > tol:
        v("tip", f"largest radius {R.max()}, addendum radius {ra}")
    spl = bt.lower() == "spline" and rd < rb
    if R.min() < rd - (.15 * (2 * math.pi / z * rd) if spl else tol):
        v("root", f"smallest radius {R.min()}, dedendum radius {rd}")
    if R.min() > rd + tol:
        v("root", f"the outline stays above the dedendum circle: {R.min()} > {rd}")
    # tooth axes from the tips
    p = 2 * math.pi / z
    tips = TH[abs(R - ra) < tol]
    if len(tips) < 2 * z:
        v("tips", f"{len(tips)} tip corners for {z} teeth")
        return
    ph = tips % p
    half = thick(ra) / 2
    c0 = min((x for x in np.unique(np.round(ph, 9))), key=lambda x: np.sum(abs((ph - (x + half) + p / 2) % p - p / 2)))
    # the tooth axis is half a tip thickness after the leading corner
    ax = (c0 + half) % p
    rel = (TH - ax + p / 2) % p - p / 2
    r0 = max(rb, rd)
    sel = R > r0 + tol
    ctx.ev("flank_points", int(sel.sum()))
    w = np.array([thick(r) / 2 for r in R[sel]])
    err = abs(abs(rel[sel]) - w) * R[sel]
    if len(err) and err.max() > 1e-6 * ra:
        k = int(err.argmax())
        v("flank", f"at radius {R[sel][k]} the flank is at half thickness {abs(rel[sel][k]) * R[sel][k]}, involute has {w[k] * R[sel][k]}")
        return
    n1, n2 = int(np.sum(rel[sel] > 0)), int(np.sum(rel[sel] < 0))
    if n1 != n2 or n1 % z:
        v("teeth", f"{n1} and {n2} points on the two flanks of {z} teeth")
    step = kw.get("involute_step", .5)
    fl = np.where((R >= r0 - tol) & (np.roll(R, -1) >= r0 - tol))[0]
    dr = abs(np.roll(R, -1) - R)[fl]
    if len(dr) and dr.max() > max(step, (ra - r0) / 2) + tol:
        v("step", f"flank points {dr.max()} apart in radius, involute_step {step}")
    for _ in range(40):
        r = rng.uniform(.2 * rd, ra * 1.1)
        t = rng.uniform(-math.pi, math.pi)
        rt = abs((t - ax + p / 2) % p - p / 2)
        sag = ra * (p ** 2) / 8 + step ** 2 / r0 / 2
        if abs(r - ra) < sag + tol or abs(r - rd) < sag + tol:
            continue
        if r < rd:
            if spl and r > .8 * rd:
                continue
            exp = True
        elif r > ra:
            exp = False
        else:
            if r < rb and spl:
                continue
            h = thick(max(r, r0)) / 2
            if abs(rt - h) * r < sag + .02 * m:
                continue
            exp = rt < h
        ctx.ev("memberships")
        q = (r * math.cos(t), r * math.sin(t))
        if inside(P, q) != exp:
            v("inside", f"the point at radius {r}, {rt * r} from the axis of a tooth, is {'outside' if exp else 'inside'}")
    if rng.random() < .4:
        for bad in (lambda: GF.make_gear_figure(0, z, al, bt), lambda: GF.make_gear_figure(-m, z, al, bt), lambda: GF.make_gear_figure(m, 0, al, bt), lambda: GF.make_gear_figure(m, -z, al, bt), lambda: GF.make_gear_figure(m, z, al, "arc"), lambda: GF.make_gear_figure(m, z, al, bt, involute_step=0), lambda: GF.make_gear_figure(m, z, al, bt, spline_division_num=0)):
            ctx.ev("refusals")
            try:
                bad()
                v("refuse", "bad gear parameters were accepted")
            except ValueError:
                pass


# ---------------------------------------------------------------- block font

# cells (5 wide, 7 tall, top row first) of the block font at unit resolution where it is integral
CELLS = None


def cells(ch):
    """the font's rectangles for a character; a box for unknown ones"""
    return T.BLOCK_FONT.get(ch.upper() if len(ch.upper()) == 1 else ch, [(1, 1, 3, 5)])


def rstring(rng, n=None, chars=None):
    chars = chars or "".join(T.BLOCK_FONT) + "abcxyz" + "~^`|€é"
    return "".join(rng.choice(chars) for _ in range(n or rng.randint(1, 9)))


def raster(polys, pts):
    out = np.zeros(len(pts), bool)
    for p in polys:
        q = np.array([a[:2] for a in p])
        lo, hi = q.min(0), q.max(0)
        out |= np.all((pts > lo) & (pts < hi), axis=1)
    return out


def block(ctx, rng):
    s = rstring(rng)
    h = round(rng.uniform(1, 30), 2)
    sp = rng.choice([0.0, .5, 1.0, 2.0, rng.uniform(0, 3)])
    key = [s, h, sp]
    ctx.case(key)
    ctx.ev("strings")
    font = rng.choice(["block", "block", "No Such Font"])
    v = lambda mech, msg: ctx.viol("block:" + mech, f"{key}: {msg}", key)
    P = T.text_to_polygons(s, h, sp, font)
    u = h / 7
    want = []
    for i, ch in enumerate(s):
        x0 = i * (5 + sp) * u
        for x, y, w, k in cells(ch):
            want.append((x0 + x * u, y * u, x0 + (x + w) * u, (y + k) * u))
    got = []
    for p in P:
        q = np.array([a[:3] for a in p])
        A = float(np.sum(q[:-1, 0] * q[1:, 1] - q[1:, 0] * q[:-1, 1]) / 2)
        lo, hi = q.min(0), q.max(0)
        if np.abs(q[0] - q[-1]).max() > 1e-9 or abs(A - (hi[0] - lo[0]) * (hi[1] - lo[1])) > 1e-6 * h * h or abs(q[:, 2]).max() > 1e-9:
            v("polygon", f"not a closed counter-clockwise rectangle in the plane: {q.tolist()}")
        got.append((lo[0], lo[1], hi[0], hi[1]))
    ctx.ev("cells", len(want))
    # the union of the rectangles, sampled
    xs = (np.arange(int(len(s) * (5 + sp) * 4)) + .37) * u / 4
    ys = (np.arange(-2, 32) + .41) * u / 4
    pts = np.array([(a, b) for a in xs for b in ys])
    a = np.zeros(len(pts), bool)
    for r in want:
        a |= (pts[:, 0] > r[0]) & (pts[:, 1] > r[1]) & (pts[:, 0] < r[2]) & (pts[:, 1] < r[3])
    b = raster(P, pts) if P else np.zeros(len(pts), bool)
    near = np.zeros(len(pts), bool)
    if (a != b).any():
        k = int(np.where(a != b)[0][0])
        v("cells", f"at {pts[k].tolist()} (character {int(pts[k][0] // ((5 + sp) * u))}) the text is {'empty' if a[k] else 'filled'}")
    # glyphs stay in their 5 x 7 cell and are told apart
    W = T.text_width(s, h, sp, font)
    ww = (len(s) * 5 + (len(s) - 1) * sp) * u
    ctx.check(abs(W - ww) < 1e-6 * ww, "block:width", lambda: f"{key}: text_width {W}, expected {ww}", key)
    if got:
        G = np.array(got)
        ctx.check(G[:, 0].min() > -1e-9 and G[:, 2].max() < ww + 1e-6 and G[:, 1].min() > -1.6 * u and G[:, 3].max() < h + 1e-6, "block:extent", lambda: f"{key}: the text spans {G[:, :2].min(0)} .. {G[:, 2:].max(0)}, width {ww}, height {h}", key)
    # fit functions
    ctx.ev("fits")
    mx = ww * rng.choice([rng.uniform(.3, 1.7), 1.001, .999])
    fit, w2, msg = T.validate_text_fit(s, h, mx, sp, font)
    ctx.check(bool(fit) == (ww <= mx) and abs(w2 - ww) < 1e-6 * ww and isinstance(msg, str), "block:fit", lambda: f"{key}: validate_text_fit with width {mx} says {fit}, {w2}; the text is {ww} wide", key)
    hh = T.calculate_text_height_for_width(s, mx, sp, font)
    ctx.check(abs(hh - mx / (ww / h)) < 1e-6 * hh, "block:height", lambda: f"{key}: height {hh} for width {mx}, expected {mx / (ww / h)}", key)
    d = rng.uniform(.3, 4)
    mh = rng.choice([3.0, .5, 1e-3])
    S, ha = T.text_solid_fitted(s, mx, d, sp, font, mh) if rng.random() < .5 else T.text_solid_fitted(s, mx, d, spacing=sp, font=font, min_height=mh)
    wa = T.text_width(s, ha, sp, font)
    ctx.check(ha >= mh - 1e-12 and (wa <= mx * (1 + 1e-9) or abs(ha - mh) < 1e-12), "block:fitted", lambda: f"{key}: fitted to {mx} with minimum height {mh}: height {ha}, width {wa}", key)
    solidtext(ctx, rng, S, s, ha, sp, d, None, key)
    c = None if rng.random() < .4 else [rng.uniform(-50, 50) for _ in range(3)]
    S = T.text_solid(s, h, d, sp, center=g.point(*c) if c else None, font=font)
    solidtext(ctx, rng, S, s, h, sp, d, c, key + [d, c])
    if rng.random() < .1:
        ch = T.get_supported_characters()
        ctx.check(sorted(ch) == sorted(T.BLOCK_FONT), "block:supported", lambda: f"supported characters {ch!r}", key)
        ctx.check(T.text_width("", h, sp, font) == 0 and T.text_to_polygons("", h, sp, font) == [] and not T.text_solid("", h, d, sp, font=font)[1] and not T.text_solid_fitted("", mx, d, sp, font)[0][1], "block:empty", "empty text has geometry", key)


def solidtext(ctx, rng, S, s, h, sp, d, c, key):
    """the extruded rectangles of s"""
    u = h / 7
    R = [((i * (5 + sp) + x) * u, y * u, (i * (5 + sp) + x + w) * u, (y + k) * u) for i, ch in enumerate(s) for x, y, w, k in cells(ch)]
    if not R:
        ctx.check(g3.issolid(S) and not S[1], "text:blank", lambda: f"{key}: blank text has surfaces", key)
        return
    R = np.array(R)
    Tm = M.tris(S)
    lo, hi = M.box(Tm)
    o = np.zeros(3)
    if c is not None:
        o = np.array(c) - np.array([(R[:, 0].min() + R[:, 2].max()) / 2, (R[:, 1].min() + R[:, 3].max()) / 2, d / 2])
    wl, wh = np.array([R[:, 0].min(), R[:, 1].min(), 0]) + o, np.array([R[:, 2].max(), R[:, 3].max(), d]) + o
    tol = 1e-6 * (1 + np.abs(wh).max())
    if np.abs(lo - wl).max() > tol or np.abs(hi - wh).max() > tol:
        ctx.viol("text:box", f"{key}: the solid spans {lo} .. {hi}, expected {wl} .. {wh}", key)
        return
    V, want = M.volume(Tm), float(np.sum((R[:, 2] - R[:, 0]) * (R[:, 3] - R[:, 1])) * d)
    ctx.check(g3.issolid(S, fast=False) and abs(V - want) < 1e-6 * want, "text:volume", lambda: f"{key}: signed volume {V}, strokes have {want}", key)
    Q = np.array([[rng.uniform(wl[i] - .1 * h, wh[i] + .1 * h) for i in range(3)] for _ in range(12)])
    W = M.winding(Tm, Q)
    for q, w in zip(Q, W):
        x = q - o
        if min(abs(x[2]), abs(x[2] - d), *(np.abs(R[:, [0, 2]] - x[0]).min(), np.abs(R[:, [1, 3]] - x[1]).min())) < 1e-3 * h:
            continue
        n = int(np.sum((R[:, 0] < x[0]) & (x[0] < R[:, 2]) & (R[:, 1] < x[1]) & (x[1] < R[:, 3]))) if 0 < x[2] < d else 0
        ctx.ev("memberships")
        ctx.check(abs(w - n) < 1e-3, "text:inside", lambda: f"{key}: winding number {w} at {q}, {n} strokes there", key)


FONT_SHAPES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "blockfont.json")))


def shapes(ctx, rng):
    """the block font's glyphs: within the cell, told apart, unchanged design"""
    ch = rng.choice(sorted(set(T.BLOCK_FONT) | set(FONT_SHAPES)))
    key = ["glyph", ch, rng.random()]
    ctx.case(key)
    P = T.text_to_polygons(ch, 7.0, 1.0, "block")
    pts = np.array([((i + .5) / 4, (j + .5) / 4) for j in range(-4, 28) for i in range(20)])
    r = raster(P, pts) if P else np.zeros(len(pts), bool)
    code = hex(int("".join("1" if b else "0" for b in r), 2))
    if ch in FONT_SHAPES:
        ctx.check(code == FONT_SHAPES[ch], "block:glyph", lambda: f"the strokes of {ch!r} are not those of the font", key)
        ctx.ev("cells")
    elif ch not in T.BLOCK_FONT:
        ctx.viol("block:glyph", f"{ch!r} is no longer in the font", key)


# ---------------------------------------------------------------- TrueType

def signed(p):
    q = np.array([a[:2] for a in p])
    return float(np.sum(q[:-1, 0] * q[1:, 1] - q[1:, 0] * q[:-1, 1]) / 2)


def segdist(c, q):
    A, B = c, np.roll(c, -1, 0)
    d = B - A
    t = np.clip(np.einsum("ij,ij->i", q - A, d) / np.maximum(np.einsum("ij,ij->i", d, d), 1e-300), 0, 1)
    return float(np.linalg.norm(A + t[:, None] * d - q, axis=1).min())


def ttf(ctx, rng):
    if not FONTS:
        return
    path = rng.choice(FONTS)
    face = freetype.Face(path)
    face.set_char_size(6400)
    flags = freetype.FT_LOAD_DEFAULT
    face.load_char("H", flags | freetype.FT_LOAD_NO_BITMAP)
    bb = face.glyph.outline.get_bbox()
    Hpx = (bb.yMax - bb.yMin) / 64
    chars = [chr(c) for c in range(33, 127)] + [c for c in "®©◎⊙" if face.get_char_index(c)]
    s = rstring(rng, rng.randint(1, 5), chars + [" "])
    h, sp = rng.uniform(2, 40), rng.choice([0.0, 1.0, rng.uniform(0, 4)])
    font = path
    key = [s, os.path.basename(path), round(h, 4), sp]
    ctx.case(key)
    v = lambda mech, msg: ctx.viol("ttf:" + mech, f"{key}: {msg}", key)

    k = h / Hpx
    adv, areas, spans = [], [], []
    for ch in s:
        face.load_char(ch, flags | freetype.FT_LOAD_NO_BITMAP)
        adv.append(face.glyph.advance.x / 64 * k)
        ol = face.glyph.outline
        bb = ol.get_bbox()
        if any(b - a < 2 for a, b in zip([-1] + ol.contours, ol.contours)):  # stray anchor points
            Q = [p for a, b in zip([-1] + ol.contours, ol.contours) if b - a > 2 for p in ol.points[a + 1:b + 1]]
            spans.append([f(p[i] for p in Q) / 64 * k for f in (min, max) for i in (0, 1)])
        else:
            spans.append([bb.xMin / 64 * k, bb.yMin / 64 * k, bb.xMax / 64 * k, bb.yMax / 64 * k] if len(ol.points) else None)
        face.load_char(ch, flags | freetype.FT_LOAD_RENDER)
        areas.append(sum(face.glyph.bitmap.buffer) / 255 * k * k)
    x0 = np.concatenate([[0], np.cumsum(np.array(adv) + sp)])
    W, ww = T.text_width(s, h, sp, font), x0[-1] - sp
    if abs(W - ww) > 1e-6 * (1 + ww):
        v("width", f"text_width {W}, the advances give {ww}")
    P = T.text_to_polygons(s, h, sp, font)
    ctx.ev("glyphs", len(s))
    # extents and areas, by even-odd combination of the contours (all glyphs here have no overlaps)
    for i, ch in enumerate(s):
        if spans[i] is None:
            continue
        lo, hi = x0[i] + spans[i][0] - .02 * h, x0[i] + spans[i][2] + .02 * h
        mine = [np.array([a[:2] for a in p]) for p in P if lo <= np.mean([a[0] for a in p]) <= hi]
        if len(s) == 1 or not any(spans[j] and j != i and x0[j] + spans[j][0] < hi and x0[j] + spans[j][2] > lo for j in range(len(s))):
            Q = np.concatenate(mine) if mine else np.zeros((1, 2))
            e = [Q[:, 0].min() - x0[i] - spans[i][0], Q[:, 1].min() - spans[i][1], Q[:, 0].max() - x0[i] - spans[i][2], Q[:, 1].max() - spans[i][3]]
            if max(map(abs, e)) > .01 * h:
                v("extent", f"{ch!r} differs from its glyph's box by {e}")
            A = sum(signed(p) for p in mine)
            if abs(abs(A) - areas[i]) > .015 * areas[i] + 3 * k * k:
                v("area", f"contours of {ch!r} enclose {abs(A)}, the glyph covers {areas[i]}")
    d = rng.uniform(.5, 5)
    S = T.text_solid(s, h, d, sp, font=font)
    Tm = M.tris(S)
    A = sum(areas)
    if not len(Tm):
        if A > 0:
            v("solid", "no solid")
        return
    V = M.volume(Tm)
    if abs(V - A * d) > .02 * A * d + 3 * k * k * d * len(s):
        v("volume", f"signed volume {V} for glyph area {A} and depth {d} (expected {A * d})")
    lo, hi = M.box(Tm)
    if abs(lo[2]) > 1e-6 or abs(hi[2] - d) > 1e-6 * (1 + d):
        v("depth", f"z from {lo[2]} to {hi[2]}, depth {d}")
    xs = [(x0[i] + q[0], x0[i] + q[2]) for i, q in enumerate(spans) if q]
    if abs(lo[0] - min(a for a, _ in xs)) > .01 * h or abs(hi[0] - max(b for _, b in xs)) > .01 * h:
        v("solid-place", f"the solid spans x {lo[0]} .. {hi[0]}, its glyphs {min(a for a, _ in xs)} .. {max(b for _, b in xs)}")
    D = M.defects(Tm)
    if D:
        v("closed", f"{len(D)} open edges")
    # the solid is over the contours
    cont = [np.array([a[:2] for a in p])[:-1] for p in P]
    Q = np.array([[rng.uniform(lo[0], hi[0]), rng.uniform(lo[1], hi[1]), d * rng.choice([.3, .8])] for _ in range(10)])
    for q, w in zip(Q, M.winding(Tm, Q)):
        if min(np.abs(np.linalg.norm(c - q[:2], axis=1)).min() for c in cont) < .02 * h or min(segdist(c, q[:2]) for c in cont) < 2e-3 * h:
            continue
        ctx.ev("memberships")
        n = sum((1 if signed(np.vstack([c, c[:1]])) > 0 else -1) for c in cont if inside(c, q))
        if (abs(n) > 0) != (w > .5):
            v("solid-inside", f"winding number {w} of the solid at {q}, contours around it {n}")
    # holes belong to the contour just around them
    for ch in set(s):
        face.load_char(ch, flags | freetype.FT_LOAD_NO_BITMAP)
        for grp in T.glyph_to_grouped_contours(face.glyph, 0.0, k):
            out = np.array([a[:2] for a in grp["outer"]])[:-1]
            for hole in grp["holes"]:
                if not all(inside(out, a[:2]) for a in hole[:-1]):
                    v("holes", f"{ch!r} has a hole outside its contour")
            if abs(signed(grp["outer"])) < sum(abs(signed(x)) for x in grp["holes"]):
                v("holes", f"{ch!r} has holes larger than their contour")


# ---------------------------------------------------------------- placement

def unit(v):
    return v / np.linalg.norm(v)


def placed(ctx, rng):
    s = rstring(rng, rng.randint(1, 6), "ABCEFGHJKLPQRSTZ12345679")
    c = np.array([rng.uniform(-60, 60) for _ in range(3)])
    ax = [np.array(v, float) for v in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))]
    n = rng.choice(ax) if rng.random() < .6 else np.array([rng.gauss(0, 1) for _ in range(3)])
    up = rng.choice(ax) if rng.random() < .6 else np.array([rng.gauss(0, 1) for _ in range(3)])
    if np.linalg.norm(n) < .2 or np.linalg.norm(np.cross(unit(n), unit(up))) < .15:
        n, up = ax[2], ax[4]
    n, up = n * rng.uniform(.3, 4), up * rng.uniform(.3, 4)
    mw, d = rng.uniform(5, 150), rng.uniform(.2, 4)
    mg = rng.choice([0.0, 0.0, rng.uniform(-1, 3)])
    key = [s, c.tolist(), n.tolist(), up.tolist(), mw, d, mg]
    ctx.case(key)
    ctx.ev("placed")
    f = tuple if rng.random() < .5 else list
    kw = {"margin": mg} if mg else {}
    S = T.text_on_surface(s, f(c), f(n), f(up), mw, d, font="block", **kw)
    F, h = T.text_solid_fitted(s, mw, d, font="block")
    N = unit(n)
    Rt = unit(np.cross(up, N))
    Up = np.cross(N, Rt)
    X = M.tris(S).reshape(-1, 3) - c
    L = np.stack([X @ Rt, X @ Up, X @ N], 1)
    E = M.tris(F).reshape(-1, 3)
    E = E - [(E[:, 0].min() + E[:, 0].max()) / 2, (E[:, 1].min() + E[:, 1].max()) / 2, E[:, 2].min() - mg]
    if L.shape != E.shape or np.abs(L - E).max() > 1e-6 * (1 + np.abs(c).max() + mw):
        k = ""
        if L.shape == E.shape:
            k = f": in the frame (right, up, normal) it spans {L.min(0)} .. {L.max(0)}, expected {E.min(0)} .. {E.max(0)}"
        ctx.viol("surface:place", f"text {s!r} on a surface at {c.tolist()}, normal {n.tolist()}, up {up.tolist()}, depth {d}, margin {mg} is misplaced{k}", key)
    for sf in S[1]:
        if M.normals_ok(sf):
            ctx.viol("surface:normals", "normals were not turned with the text", key)
            break
    if rng.random() < .2:
        for bad in (lambda: T.text_on_surface(s, (0, 0, 0), (0, 0, 0), (0, 0, 1), mw, font="block"), lambda: T.text_on_surface(s, (0, 0, 0), (0, 0, 1), (0, 0, 0), mw, font="block"), lambda: T.text_on_surface(s, (0, 0, 0), f(n), f(n), mw, font="block"), lambda: T.engrave_text(U.prism(9, 9, 9), s, g.point(0, 0, 0), g.vect(0, 0, 0, 0), font="block"), lambda: T.engrave_text(7, s, g.point(0, 0, 0), g.vect(0, 0, 1, 0), font="block")):
            ctx.ev("refusals")
            try:
                bad()
                ctx.viol("surface:refuse", "a zero normal or up direction, or a non-solid, was accepted", key)
            except ValueError:
                pass


def engrave(ctx, rng):
    s = rstring(rng, rng.randint(1, 4), "-'-_:")
    h, sp = rng.uniform(2, 6), rng.uniform(.5, 2)
    u = h / 7
    d = rng.uniform(.4, 2.5)
    Wt = (len(s) * 5 + (len(s) - 1) * sp) * u
    i, sg = rng.randrange(3), rng.choice([1, -1])
    n = np.zeros(3)
    n[i] = sg
    half = Wt + h + rng.uniform(3, 8)
    dim = [2 * half] * 3
    dim[i] = rng.uniform(2.2, 4) * d
    cen = np.array([rng.uniform(-20, 20) for _ in range(3)])
    blk = g3.translatesolid(U.prism(*dim), g.point(*cen))
    pos = cen + n * dim[i] / 2
    key = [s, h, sp, d, i, sg]
    ctx.case(key)
    old = os.environ.get("YAPCAD_MESH_BOOLEAN_ENGINE")
    os.environ["YAPCAD_MESH_BOOLEAN_ENGINE"] = "trimesh:manifold"
    before = repr(blk)
    try:
        R = T.engrave_text(blk, s, g.point(*pos), g.vect(n[0] * 2, n[1] * 2, n[2] * 2, 0), h, d, sp, "block")
    finally:
        os.environ.pop("YAPCAD_MESH_BOOLEAN_ENGINE")
        if old is not None:
            os.environ["YAPCAD_MESH_BOOLEAN_ENGINE"] = old
    ctx.check(repr(blk) == before, "engrave:pure", "the solid engraved was changed", key)
    Tm = M.tris(R)
    A = sum(w * k * u * u for ch in s for _, _, w, k in cells(ch))
    V, want = M.volume(Tm), float(np.prod(dim)) - A * d
    ctx.ev("engraved")
    # the engine works in single precision
    if abs(V - want) > 1e-3 * A * d + 1.2e-7 * (np.abs(cen).max() + half) * 24 * half * half:
        ctx.viol("engrave:depth", f"{key}: engraving {s!r} {d} deep removed {np.prod(dim) - V}, the strokes are {A * d} (face {n.tolist()})", key)
        return
    lo, hi = M.box(Tm)
    ctx.check(np.abs(lo - (cen - np.array(dim) / 2)).max() < 1e-4 and np.abs(hi - (cen + np.array(dim) / 2)).max() < 1e-4, "engrave:box", lambda: f"{key}: the engraved solid spans {lo} .. {hi}", key)
    # strokes start at the position and are removed from the face to the depth
    Q = np.array([pos - n * d * f + np.array([rng.uniform(-1, 1) * (Wt + h) if j != i else 0 for j in range(3)]) for f in [rng.choice([.1, .5, .9, 1.1, 1.5]) for _ in range(60)]])
    w = M.winding(Tm, Q)
    if i == 2 and sg == 1:
        for q, x in zip(Q, w):
            p = (q - pos) / u
            dep = (pos - q)[2]
            gone, close = False, False
            for a, ch in enumerate(s):
                for X0, Y0, ww, k in cells(ch):
                    e = min(p[0] - (a * (5 + sp) + X0), a * (5 + sp) + X0 + ww - p[0], p[1] - Y0, Y0 + k - p[1])
                    gone |= e > 0
                    close |= abs(e) < .02
            if close:
                continue
            ctx.ev("memberships")
            ctx.check((x < .5) == (gone and dep < d), "engrave:where", lambda: f"{key}: at {q} ({dep} deep) the material is {'gone' if x < .5 else 'there'}", key)
    else:
        deep = np.array([(pos - q) @ n for q in Q])
        ctx.check(not (w[deep > d] < .5).any(), "engrave:where", lambda: f"{key}: material below the engraving depth is gone", key)


GROUPS = {"gear": (gear, 200, 2500), "block": (block, 400, 5000), "shapes": (shapes, 300, 600), "ttf": (ttf, 200, 2500), "placed": (placed, 200, 2000), "engrave": (engrave, 60, 600)}

if __name__ == "__main__":
    vf.main(globals())
