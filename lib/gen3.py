"""random closed solids and surfaces for the export, metadata and package checks"""
import math


def solid(rng, spread=3.0, size=1.0, move=True):
    from yapcad import geom as g, geom3d as g3, geom3d_util as u
    k = rng.randrange(8)
    R = lambda a, b: rng.uniform(a, b) * size
    p = g.point(*[rng.uniform(-spread, spread) * size for _ in range(3)])
    if k == 0:
        s = u.prism(R(1, 4), R(1, 4), R(1, 4), p)
    elif k == 1:
        s = u.sphere(R(1.5, 4), p, depth=rng.choice([0, 1, 2]))
    elif k == 2:
        s = u.conic(R(.6, 2), rng.choice([0, R(.5, 1.5)]), R(1, 4), p, angr=rng.choice([12, 20, 30]))
    elif k == 3:
        o = R(3, 5)
        s = u.tube(o, o * rng.uniform(.1, .3), R(1, 4), base_point=p, minang=rng.choice([12, 20]))
    elif k == 4:
        L = [(0, 0), (4, 0), (4, 3), (2, 1.2), (0, 4)]
        s = u.extrude(g3.poly2surface([g.point(x * size, y * size) for x, y in L + L[:1]])[0], R(1, 3))
    elif k == 5:
        n = rng.randint(3, 9)
        P = [(r * math.cos(i * math.tau / n) * size, r * math.sin(i * math.tau / n) * size) for i, r in ((i, rng.uniform(1, 3)) for i in range(n))]
        s = u.extrude(g3.poly2surface([g.point(*q) for q in P + P[:1]])[0], R(.5, 3))
    elif k == 6:
        s = u.conic_tube(R(3, 4), R(2, 3), R(.3, .8), R(1, 3), base_point=p, minang=20)
    else:
        s = u.spherical_shell(R(4, 6), R(.3, 1), steps=4)
    if move and rng.random() < .6:
        s = g3.rotatesolid(s, rng.uniform(0, 360), axis=g.point(*[rng.gauss(0, 1) for _ in range(3)]))
    if move and rng.random() < .4:
        s = g3.translatesolid(s, p)
    return s


def surf(rng, size=1.0):
    """a single surface, open or closed"""
    from yapcad import geom as g, geom3d as g3
    if rng.random() < .5:
        s = solid(rng, size=size)
        return rng.choice(s[1])
    n = rng.randint(3, 9)
    P = [(r * math.cos(i * math.tau / n) * size, r * math.sin(i * math.tau / n) * size) for i, r in ((i, rng.uniform(1, 3)) for i in range(n))]
    s = g3.poly2surface([g.point(*q) for q in P + P[:1]])[0]
    if rng.random() < .5:
        s = g3.rotatesurface(s, rng.uniform(0, 360), axis=g.point(*[rng.gauss(0, 1) for _ in range(3)]))
    return s
