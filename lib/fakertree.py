"""Stand-in for the (absent) rtree package: exactly the subset trimesh uses,
as a brute-force scan over boxes.  Only answers which boxes meet a box."""
import sys, types
import numpy as np


class Property:
    def __init__(self, dimension=2, **kw):
        self.dimension = dimension


class Index:
    def __init__(self, stream=(), properties=None, **kw):
        self.d = properties.dimension if properties else 2
        rows = list(stream)
        self.ids = [int(r[0]) for r in rows]
        b = np.array([np.asarray(r[1], dtype=float) for r in rows]).reshape((-1, 2 * self.d))
        self.lo, self.hi = b[:, :self.d], b[:, self.d:]

    @property
    def bounds(self):
        return np.concatenate([self.lo.min(0), self.hi.max(0)]).tolist()

    def intersection(self, b, objects=False):
        b = np.asarray(b, dtype=float).reshape(-1)
        m = np.all(self.lo <= b[self.d:], axis=1) & np.all(self.hi >= b[:self.d], axis=1)
        return [self.ids[i] for i in np.nonzero(m)[0]]

    def intersection_v(self, mins, maxs):
        out, cnt = [], []
        for a, b in zip(np.asarray(mins), np.asarray(maxs)):
            r = self.intersection(np.concatenate([a, b]))
            out.extend(r)
            cnt.append(len(r))
        return np.array(out, dtype=np.int64), np.array(cnt, dtype=np.int64)


def install():
    try:
        import rtree  # noqa: F401
        return False
    except ImportError:
        pass
    m = types.ModuleType("rtree")
    ix = types.ModuleType("rtree.index")
    ix.Property, ix.Index = Property, Index
    m.index, m.Rtree, m.__version__ = ix, Index, "0-standin"
    sys.modules["rtree"], sys.modules["rtree.index"] = m, ix
    return True
