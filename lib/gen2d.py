"""2D figure generators and an independent reference model of yapCAD figures.

Reference pieces:  ('P',p) | ('L',a,b) | ('A',c,r,a0,sweep)  (radians, sweep signed)
"""
import math
TAU = 2 * math.pi
ROT = 0.7345217


def P(x, y, z=0.0):
    return [float(x), float(y), float(z), 1.0]


def close(a, b, tol=1e-6):
    return all(abs(a[i] - b[i]) <= tol for i in range(3))


def d2(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def d3(a, b):
    return math.sqrt(sum((a[i] - b[i]) ** 2 for i in range(3)))


# ------------------------------------------------------------- recognisers (own)
def is_pt(x):
    return isinstance(x, list) and len(x) == 4 and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in x) and x[3] > 0


def is_arc(x):
    return isinstance(x, list) and len(x) in (2, 3) and is_pt(x[0]) and isinstance(x[1], list) and len(x[1]) == 4 \
        and not isinstance(x[1][0], list) and x[1][3] in (-1, -2)


def is_line(x):
    return isinstance(x, list) and len(x) == 2 and is_pt(x[0]) and is_pt(x[1])


def is_poly(x):
    return isinstance(x, list) and len(x) > 2 and all(is_pt(p) for p in x)


def is_circle(x):
    return is_arc(x) and x[1][1] == 0 and x[1][2] == 360


# ------------------------------------------------------------- reference model
def pieces(f):
    """flatten a figure into reference pieces, in sampling order"""
    if is_pt(f):
        return [('P', f)]
    if is_arc(f):
        c, (r, s, e, w) = f[0], f[1]
        if s == 0 and e == 360:
            a0, sw = 0.0, TAU
        else:
            a0 = math.radians(s % 360.0)
            sw = math.radians((e % 360.0) - (s % 360.0))
            if sw < 0:
                sw += TAU
        if w == -2:
            a0, sw = a0 + sw, -sw
        return [('A', c, r, a0, sw)]
    if is_line(f):
        return [('L', f[0], f[1])]
    if is_poly(f):
        return [('L', f[i], f[i + 1]) for i in range(len(f) - 1)]
    out = []
    for g in f:
        out += pieces(g)
    return out


def plen(p):
    if p[0] == 'L':
        return d3(p[1], p[2])
    if p[0] == 'A':
        return abs(p[2] * p[4])
    return 0.0


def peval(p, t):
    if p[0] == 'P':
        return p[1]
    if p[0] == 'L':
        a, b = p[1], p[2]
        return [a[i] + (b[i] - a[i]) * t for i in range(3)] + [1.0]
    c, r, a0, sw = p[1:]
    return [c[0] + r * math.cos(a0 + sw * t), c[1] + r * math.sin(a0 + sw * t), c[2], 1.0]


def rlen(f):
    return sum(plen(p) for p in pieces(f))


def rsample(f, u):
    ps = [p for p in pieces(f) if plen(p) > 0] or pieces(f)
    L = sum(plen(p) for p in ps)
    if L == 0:
        return peval(ps[0], 0)
    s = u * L
    if s <= 0:
        return peval(ps[0], s / plen(ps[0]))
    for p in ps[:-1]:
        l = plen(p)
        if s <= l:
            return peval(p, s / l)
        s -= l
    return peval(ps[-1], s / plen(ps[-1]))


def pbox(ps):
    xs, ys, zs = [], [], []
    for p in ps:
        pts = [peval(p, 0), peval(p, 1)]
        if p[0] == 'A':
            c, r, a0, sw = p[1:]
            lo, hi = min(a0, a0 + sw), max(a0, a0 + sw)
            k = math.ceil((lo - 1e-12) / (TAU / 4))
            while k * TAU / 4 <= hi + 1e-12:
                a = k * TAU / 4
                pts.append([c[0] + r * math.cos(a), c[1] + r * math.sin(a), c[2], 1])
                k += 1
        for q in pts:
            xs.append(q[0]); ys.append(q[1]); zs.append(q[2])
    return [min(xs), min(ys), min(zs)], [max(xs), max(ys), max(zs)]


def pdist(p, q):
    """distance (2D) from point q to reference piece p"""
    if p[0] == 'P':
        return d2(p[1], q)
    if p[0] == 'L':
        a, b = p[1], p[2]
        vx, vy = b[0] - a[0], b[1] - a[1]
        n = vx * vx + vy * vy
        t = 0 if n == 0 else max(0, min(1, ((q[0] - a[0]) * vx + (q[1] - a[1]) * vy) / n))
        return math.hypot(a[0] + t * vx - q[0], a[1] + t * vy - q[1])
    c, r, a0, sw = p[1:]
    dx, dy = q[0] - c[0], q[1] - c[1]
    ang = math.atan2(dy, dx)
    if sw < 0:
        a0, sw = a0 + sw, -sw
    if (ang - a0) % TAU <= sw or sw >= TAU - 1e-12:
        return abs(math.hypot(dx, dy) - r)
    return min(d2(peval(p, 0), q), d2(peval(p, 1), q))


def fdist(f, q):
    return min(pdist(p, q) for p in pieces(f))


def area(f):
    """signed area enclosed by the (closed) chain of pieces of f"""
    A = 0.0
    for p in pieces(f):
        a, b = peval(p, 0), peval(p, 1)
        A += 0.5 * (a[0] * b[1] - b[0] * a[1])
        if p[0] == 'A':
            r, sw = p[2], p[4]
            A += 0.5 * r * r * (sw - math.sin(sw))
    return A


def winding3(f, q):
    """majority of three generic rays: for figures whose pieces only meet to within
    a stitching tolerance (a ray may slip through one such gap)"""
    return sum(winding_inside(f, q, r) for r in (ROT, ROT + 2.0137, ROT + 4.1291)) >= 2


def winding_inside(f, q, ROT=ROT):
    """even-odd membership of q in closed piece set, exact crossing count with a
    half-open rule on lines and analytic crossings on arcs"""
    n = 0
    co, si = math.cos(ROT), math.sin(ROT)       # generic direction: no ray meets a joint

    def rt(v):
        return (v[0] * co - v[1] * si, v[0] * si + v[1] * co)
    x, y = rt(q)
    for p in pieces(f):
        if p[0] == 'L':
            a, b = rt(p[1]), rt(p[2])
            if (a[1] > y) != (b[1] > y):
                xi = a[0] + (y - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
                if xi > x:
                    n += 1
        elif p[0] == 'A':
            # split at extrema so every sub-arc is y-monotone, then half-open rule
            c, r, a0, sw = p[1:]
            c, a0 = rt(c), a0 + ROT
            if sw < 0:
                a0, sw = a0 + sw, -sw
            cuts = [a0, a0 + sw]
            k = math.ceil((a0 - TAU / 4) / (TAU / 2))
            while True:
                a = TAU / 4 + k * TAU / 2
                if a >= a0 + sw:
                    break
                if a > a0:
                    cuts.append(a)
                k += 1
            cuts.sort()
            for lo, hi in zip(cuts, cuts[1:]):
                ya, yb = c[1] + r * math.sin(lo), c[1] + r * math.sin(hi)
                if (ya > y) != (yb > y):
                    s = max(-1, min(1, (y - c[1]) / r))
                    dx = math.sqrt(max(0, 1 - s * s)) * r
                    mid = 0.5 * (lo + hi)
                    xi = c[0] + (dx if math.cos(mid) > 0 else -dx)
                    if xi > x:
                        n += 1
    return n % 2 == 1


# ------------------------------------------------------------- generators
def rnum(rng, lo, hi, grid=False):
    if grid:
        return float(rng.randint(math.ceil(lo), math.floor(hi)))
    return rng.uniform(lo, hi)


def rpt(rng, s=10, z=0.0, grid=False):
    return P(rnum(rng, -s, s, grid), rnum(rng, -s, s, grid), z)


def rline(rng, s=10, z=0.0, grid=False):
    while True:
        a, b = rpt(rng, s, z, grid), rpt(rng, s, z, grid)
        if d2(a, b) > 0.2:
            return [a, b]


ANG = [0, 90, 180, 270, 360, 45, -90, -45, 450, 30.0, 359.0, 1.0, 720]


def rarc(rng, s=10, z=0.0, circle=None, rmax=6, grid=False):
    c = rpt(rng, s, z, grid)
    r = rnum(rng, 1, rmax, True) if grid else rng.uniform(0.3, rmax)
    if circle or (circle is None and rng.random() < 0.2):
        return [c, [r, 0, 360, -1]]
    while True:
        a = rng.choice(ANG) if rng.random() < 0.4 else rng.uniform(-360, 720)
        b = rng.choice(ANG) if rng.random() < 0.4 else rng.uniform(-360, 720)
        if a == 0 and b == 360:
            continue
        sw = (b % 360.0) - (a % 360.0)
        if sw < 0:
            sw += 360
        if 2 <= sw <= 358:
            break
    return [c, [r, a, b, -2 if rng.random() < 0.3 else -1]]


def ropenpoly(rng, s=10, z=0.0, n=None, grid=False):
    n = n or rng.randint(3, 8)
    while True:
        pts = [rpt(rng, s, z, grid) for _ in range(n)]
        if all(d2(pts[i], pts[i + 1]) > 0.2 for i in range(n - 1)) and d2(pts[0], pts[-1]) > 0.2:
            return pts


def rstar(rng, n=None, s=6, c=None, z=0.0, cw=None, lo=0.35):
    """simple star-shaped polygon as open vertex ring"""
    n = n or rng.randint(3, 9)
    c = c or rpt(rng, 4, z)
    a0 = rng.uniform(0, TAU)
    v = []
    for i in range(n):
        a = a0 + TAU * (i + rng.uniform(-0.3, 0.3)) / n
        r = s * rng.uniform(lo, 1)
        v.append(P(c[0] + r * math.cos(a), c[1] + r * math.sin(a), z))
    if cw if cw is not None else rng.random() < 0.4:
        v.reverse()
    return v


def closed(v):
    return [list(p) for p in v] + [list(v[0])]


def arc_between(a, b, bulge, z=0.0):
    """arc from a to b bulging left (bulge>0) or right (<0); bulge = sagitta/chord.
    returns a yapcad arc whose sampling goes a->b"""
    ch = d2(a, b)
    h = abs(bulge) * ch
    r = (ch * ch / 4 + h * h) / (2 * h)
    mx, my = (a[0] + b[0]) / 2, (a[1] + b[1]) / 2
    ux, uy = (b[0] - a[0]) / ch, (b[1] - a[1]) / ch
    lx, ly = -uy, ux
    sg = 1 if bulge > 0 else -1
    off = r - h
    cx, cy = mx - sg * lx * off, my - sg * ly * off
    aa = math.degrees(math.atan2(a[1] - cy, a[0] - cx))
    ab = math.degrees(math.atan2(b[1] - cy, b[0] - cx))
    if sg > 0:   # left bulge: travels clockwise
        return [P(cx, cy, z), [r, ab, aa, -2]]
    return [P(cx, cy, z), [r, aa, ab, -1]]


def rclosedlist(rng, n=None, s=6, c=None, z=0.0, cw=None, parc=0.5, bmax=0.12):
    v = rstar(rng, n, s, c, z, cw, lo=0.6)
    out = []
    for i in range(len(v)):
        a, b = v[i], v[(i + 1) % len(v)]
        if rng.random() < parc:
            out.append(arc_between(a, b, rng.choice([-1, 1]) * rng.uniform(0.03, bmax), z))
        else:
            out.append([list(a), list(b)])
    return out


def ropenlist(rng, s=8, z=0.0, n=None):
    n = n or rng.randint(2, 6)
    while True:
        pts = [rpt(rng, s, z) for _ in range(n + 1)]
        if all(d2(pts[i], pts[i + 1]) > 0.5 for i in range(n)):
            break
    out = []
    for a, b in zip(pts, pts[1:]):
        k = rng.random()
        if k < 0.4:
            out.append(arc_between(a, b, rng.choice([-1, 1]) * rng.uniform(0.05, 0.6), z))
        elif k < 0.55:
            m = P((a[0] + b[0]) / 2 + rng.uniform(-1, 1), (a[1] + b[1]) / 2 + rng.uniform(-1, 1), z)
            out.append([list(a), m, list(b)])
        else:
            out.append([list(a), list(b)])
    return out


def rfigure(rng, z=0.0, kinds=None):
    k = rng.choice(kinds or ['point', 'line', 'arc', 'circle', 'open', 'polygon', 'clist', 'olist', 'nested'])
    if k == 'point':
        return k, rpt(rng, 10, z)
    if k == 'line':
        return k, rline(rng, 10, z)
    if k == 'arc':
        return k, rarc(rng, 10, z, circle=False)
    if k == 'circle':
        return k, rarc(rng, 10, z, circle=True)
    if k == 'open':
        return k, ropenpoly(rng, 10, z)
    if k == 'polygon':
        return k, closed(rstar(rng, z=z))
    if k == 'clist':
        return k, rclosedlist(rng, z=z)
    if k == 'olist':
        return k, ropenlist(rng, z=z)
    return k, [ropenlist(rng, z=z), rarc(rng, z=z, circle=False), closed(rstar(rng, z=z)), [rline(rng, z=z)]]


def ids(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, list):
        acc.add(id(x))
        for e in x:
            ids(e, acc)
    return acc


def fmt(f):
    if isinstance(f, list):
        return "[" + ",".join(fmt(x) for x in f) + "]"
    return f"{f:.6g}" if isinstance(f, (int, float)) else repr(f)
