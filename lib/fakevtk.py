"""Stand-ins for VTK and Flask/SocketIO, which are not installed: just enough of their documented behaviour
for the real viewer and API server code to run without a window or a network, with the state open to monitors."""
import struct, sys, types
import numpy as np
from unittest.mock import MagicMock


class vtkMatrix4x4:
    def __init__(self):
        self.m = np.eye(4)

    def SetElement(self, i, j, v):
        self.m[i, j] = v

    def GetElement(self, i, j):
        return self.m[i, j]

    def DeepCopy(self, o):
        self.m = np.array(o.m if isinstance(o, vtkMatrix4x4) else o, float).reshape(4, 4)

    def Identity(self):
        self.m = np.eye(4)


class vtkTransform:
    """PreMultiply by default: M = M * A; PostMultiply: M = A * M (as documented by VTK)"""

    def __init__(self):
        self.m, self.post = np.eye(4), False

    def PostMultiply(self):
        self.post = True

    def PreMultiply(self):
        self.post = False

    def _cat(self, a):
        self.m = a @ self.m if self.post else self.m @ a

    def Concatenate(self, a):
        self._cat(np.array(a.m))

    def SetMatrix(self, a):
        self.m = np.array(a.m if hasattr(a, "m") else a, float).reshape(4, 4).copy()

    def GetMatrix(self, *a):
        r = vtkMatrix4x4()
        r.m = self.m.copy()
        return r

    def Identity(self):
        self.m = np.eye(4)

    def Translate(self, *d):
        d = d[0] if len(d) == 1 else d
        a = np.eye(4)
        a[:3, 3] = d
        self._cat(a)

    def DeepCopy(self, o):
        self.m, self.post = o.m.copy(), o.post

    def GetPosition(self):
        return tuple(self.m[:3, 3])


class PolyData:
    def __init__(self, pts):
        self.pts = pts


class vtkSTLReader:
    def SetFileName(self, f):
        self.f = f

    def Update(self):
        b = open(self.f, "rb").read()
        n = struct.unpack("<I", b[80:84])[0]
        self.out = PolyData(np.array([[struct.unpack("<3f", b[84 + 50 * i + 12 * k + 12:84 + 50 * i + 12 * k + 24]) for k in range(3)] for i in range(n)]).reshape(-1, 3))

    def GetOutput(self):
        return self.out


class vtkPolyDataMapper:
    def SetInputData(self, d):
        self.d = d

    def GetInput(self):
        return self.d


class Prop:
    def __init__(self):
        self.color, self.opacity, self.ambient = (1, 1, 1), 1.0, 0.0

    def SetColor(self, *c):
        self.color = tuple(c[0]) if len(c) == 1 else tuple(c)

    def GetColor(self):
        return self.color

    def SetOpacity(self, o):
        self.opacity = o

    def GetOpacity(self):
        return self.opacity

    def SetAmbient(self, a):
        self.ambient = a

    def __getattr__(self, n):
        return lambda *a: None


class vtkActor:
    def __init__(self):
        self.prop, self.t, self.mapper = Prop(), None, None

    def SetMapper(self, m):
        self.mapper = m

    def GetMapper(self):
        return self.mapper

    def GetProperty(self):
        return self.prop

    def SetUserTransform(self, t):
        self.t = t

    def GetUserTransform(self):
        return self.t

    def SetUserMatrix(self, m):
        self.t = m

    def GetBounds(self):
        p = self.mapper.d.pts
        lo, hi = p.min(0), p.max(0)
        c = np.array([[(lo, hi)[i >> k & 1][k] for k in range(3)] + [1] for i in range(8)])
        if self.t is not None:
            c = c @ self.t.m.T
        a, b = c[:, :3].min(0), c[:, :3].max(0)
        return (a[0], b[0], a[1], b[1], a[2], b[2])


class Camera:
    def __init__(self):
        self.p, self.f, self.u = (0.0, 0.0, 1.0), (0.0, 0.0, 0.0), (0.0, 1.0, 0.0)

    def SetPosition(self, *a):
        self.p = tuple(a[0]) if len(a) == 1 else a

    def SetFocalPoint(self, *a):
        self.f = tuple(a[0]) if len(a) == 1 else a

    def SetViewUp(self, *a):
        self.u = tuple(a[0]) if len(a) == 1 else a

    def GetPosition(self):
        return tuple(self.p)

    def GetFocalPoint(self):
        return tuple(self.f)

    def GetViewUp(self):
        return tuple(self.u)

    def __getattr__(self, n):
        return lambda *a: None


class vtkRenderer:
    def __init__(self):
        self.actors, self.cam = [], Camera()

    def AddActor(self, a):
        if a not in self.actors:
            self.actors.append(a)

    def RemoveActor(self, a):
        if a in self.actors:
            self.actors.remove(a)

    def GetActiveCamera(self):
        return self.cam

    def __getattr__(self, n):
        return lambda *a: None


class vtkRenderWindow:
    def __init__(self):
        self.size = (0, 0)

    def SetSize(self, *s):
        self.size = tuple(s[0]) if len(s) == 1 else s

    def GetSize(self):
        return self.size

    def __getattr__(self, n):
        return lambda *a: None


class vtkPNGWriter:
    def SetFileName(self, f):
        self.f = f

    def SetInputConnection(self, c):
        pass

    def Write(self):
        open(self.f, "wb").write(b"\x89PNG\r\n\x1a\nstandin")


class vtkRenderWindowInteractor:
    def __init__(self):
        self.observers = {}

    def AddObserver(self, e, f):
        self.observers[e] = f

    def __getattr__(self, n):
        return lambda *a: None


class Request:
    body, args, sid = None, {}, "s0"

    def get_json(self, *a, **k):
        return self.body

    @property
    def json(self):
        return self.body


class Response:
    def __init__(self, data):
        self.data = data


class Flask:
    def __init__(self, name, *a, **k):
        self.rules = {}
        self.config = {}

    def route(self, path, methods=("GET",), **k):
        def deco(f):
            for m in methods:
                self.rules[m, path] = f
            return f
        return deco

    def call(self, method, path, body=None, /, **args):
        """-> (status, data)"""
        request.body, request.args = body, args
        r = self.rules[method, path]()
        code = 200
        if isinstance(r, tuple):
            r, code = r[0], r[1]
        return code, r.data if isinstance(r, Response) else r


class SocketIO:
    def __init__(self, app=None, **k):
        self.handlers, self.sent = {}, []

    def on(self, ev, *a, **k):
        def deco(f):
            self.handlers[ev] = f
            return f
        return deco

    def emit(self, ev, data=None, **k):
        self.sent.append((ev, data, k.get("to") or k.get("room")))

    def run(self, *a, **k):
        raise RuntimeError("the stand-in server does not listen")


request = Request()
replies = []


def emit(ev, data=None, **k):
    replies.append((request.sid, ev, data))


def install():
    class VTK(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return MagicMock
    v = VTK("vtk")
    for c in (vtkMatrix4x4, vtkTransform, vtkSTLReader, vtkPolyDataMapper, vtkActor, vtkRenderer, vtkRenderWindow, vtkPNGWriter, vtkRenderWindowInteractor):
        setattr(v, c.__name__, c)
    f = types.ModuleType("flask")
    f.Flask, f.request = Flask, request
    f.jsonify = lambda *a, **k: Response(a[0] if a else k)
    f.send_file = lambda p, **k: Response({"file": p, **k})
    s = types.ModuleType("flask_socketio")
    s.SocketIO, s.emit = SocketIO, emit
    c = types.ModuleType("flask_cors")
    c.CORS = lambda *a, **k: None
    sys.modules.update(vtk=v, flask=f, flask_socketio=s, flask_cors=c)
