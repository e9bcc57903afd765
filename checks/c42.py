"""C42: the viewer's scene, events and answers agree with its commands; whiteboard files stay in their folder."""
import contextlib, io, json, math, os, shutil, struct, subprocess, sys, tempfile, time
from pathlib import Path
import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, fakevtk

PROP = "C42"
LEVEL = "exploration"
META = dict(
    title="Viewer: scene and events follow the commands; whiteboard stays in its folder",
    statement="Driven through its Python API, REST routes, WebSocket commands, command file or keys, in any order, the viewer shows exactly the parts loaded and not removed or cleared, one actor per name in every viewport, each with the shape of its STL file, the placement it was given (as given, from the positions file, or re-posed by reload), moved along the axes of the scene or centred where told, the colour given, from the positions file or next in the palette, and the opacity in use (default, x-ray, highlight), also when added later; a missing file loads nothing and reports an error. Cameras are where set, orbit at the azimuth and elevation about their focal point, focus on the part named, and look at the whole scene after a reset. Every change is announced exactly once, with the actual data, to callbacks and to WebSocket clients; /status, /parts, /camera and /config report the actual state; requests naming an unknown part or viewport or lacking a field are refused (404, 400, or a failed command) and change nothing; a command written to the command file is carried out once. Whiteboard routes write, commit and read exactly the content given, only below YAPCAD_WHITEBOARD_ROOT and never in its .git, whatever the path (absolute, '..', sibling folders, symbolic links), and do nothing when it is unset. ViewerConfig survives to_dict and from_dict.",
    over=["inputs", "histories"], q="for all sequences of viewer commands over all channels, and all whiteboard paths and contents",
    why="The repository has no tests of the viewer at all; its state is spread over actors, transforms, callbacks and routes.",
    files=["src/yapcad/viewer/vtk_viewer.py", "src/yapcad/viewer/api_server.py", "src/yapcad/viewer/events.py", "src/yapcad/viewer/config.py"],
    mech=[("loading, replacing, removing and clearing of parts", "src/yapcad/viewer/vtk_viewer.py"), ("moving and re-posing of parts", "src/yapcad/viewer/vtk_viewer.py"), ("opacity and camera controls", "src/yapcad/viewer/vtk_viewer.py"), ("REST and WebSocket answers and broadcasts", "src/yapcad/viewer/api_server.py"), ("whiteboard paths and commits", "src/yapcad/viewer/api_server.py")],
    technique="model-based monitor of command histories over all channels (the scene and the event log after every command against a model), and a filesystem monitor (audit hook, git log) around hostile whiteboard requests",
    note="Exploration. VTK and Flask are not installed: the real viewer and server code runs over stand-ins (lib/fakevtk.py) that implement the documented behaviour of the VTK and Flask calls used. Rendering, subscription filters (events go to every client), the screenshot folder given by a client, camera distances after a reset or focus, and reload after loading another positions file are not claimed.",
)
RULE = "random command histories; distinct by configuration and commands; random whiteboard requests, distinct by path and content"
REQUIRE = {"commands": 4000, "events": 3000, "scenes": 4000, "rest": 600, "socket": 600, "file": 150, "refused": 200, "moves": 200, "reloads": 80, "replaced": 50, "saves": 80, "hostile": 100, "configs": 100}
WALL_QUICK = 300
EVENTS = ["part_loaded", "part_removed", "parts_cleared", "xray_changed", "camera_changed", "screenshot_saved", "selection_changed", "error"]
DIRS = {"TOP": (0, 0, 1), "FRONT": (0, -1, 0), "SIDE": (1, 0, 0)}
GUARD = {"on": None, "hits": []}


def audit(ev, args):
    if GUARD["on"] is None or ev not in ("open", "os.mkdir", "os.rename", "os.remove", "os.symlink", "os.link", "os.rmdir", "os.truncate", "os.chmod"):
        return
    if ev == "open":
        mode, flags = args[1], args[2]
        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) or isinstance(mode, str) and set(mode) & set("wax+")):
            return
    if isinstance(args[0], int):
        return
    root, p = GUARD["on"], args[0]
    on, GUARD["on"] = GUARD["on"], None
    try:
        p = os.fsdecode(p)
        real = os.path.realpath(p)
        inside = real == root or real.startswith(root + os.sep)
        git = inside and ".git" in os.path.relpath(real, root).split(os.sep)
    finally:
        GUARD["on"] = on
    if p != "/dev/null" and (not inside or git) and not (ev == "os.mkdir" and os.path.isdir(real)):
        GUARD["hits"].append((ev, p))
        raise PermissionError(f"monitor: {ev} {p}")


def init():
    global VTKViewer, ViewerAPIServer, ViewerConfig, BASE
    fakevtk.install()
    from yapcad.viewer.vtk_viewer import VTKViewer
    from yapcad.viewer.api_server import ViewerAPIServer
    from yapcad.viewer.config import ViewerConfig
    BASE = os.path.realpath(tempfile.mkdtemp(prefix="c42-"))
    tempfile.tempdir = os.path.join(BASE, "tmp")
    os.mkdir(tempfile.tempdir)
    os.environ.update(HOME=os.path.join(BASE, "home"), GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="v", GIT_AUTHOR_EMAIL="v@v", GIT_COMMITTER_NAME="v", GIT_COMMITTER_EMAIL="v@v", GIT_CEILING_DIRECTORIES=BASE)
    os.mkdir(os.environ["HOME"])
    os.environ.pop("YAPCAD_WHITEBOARD_ROOT", None)
    sys.addaudithook(audit)


def fini():
    GUARD["on"] = None
    shutil.rmtree(BASE, ignore_errors=True)


def write_stl(path, rng):
    n = rng.randint(1, 6)
    t = np.round(np.random.default_rng(rng.randrange(1 << 30)).uniform(-20, 20, (n, 3, 3)), 2).astype("<f4")
    t[0, 0] += rng.uniform(1, 30)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(b"\0" * 80 + struct.pack("<I", n))
        for k in t:
            f.write(struct.pack("<3f", 0, 0, 0) + k.tobytes() + b"\0\0")
    return t.reshape(-1, 3).astype(float)


def rmat(rng):
    k = rng.random()
    M = np.eye(4)
    if k < .75:
        q = np.array([rng.gauss(0, 1) for _ in range(4)]) if rng.random() < .6 else np.array(rng.choice([(1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1), (0, 0, 1, 0), (1, 0, -1, 0)]), float)
        w, x, y, z = q / np.linalg.norm(q)
        M[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
    M[:3, 3] = [round(rng.uniform(-100, 100), 2) for _ in range(3)]
    return M.tolist()


def box(pts, M):
    lo, hi = pts.min(0), pts.max(0)
    c = np.array([[(lo, hi)[i >> k & 1][k] for k in range(3)] + [1] for i in range(8)]) @ np.array(M).T
    a, b = c[:, :3].min(0), c[:, :3].max(0)
    return np.array([a[0], b[0], a[1], b[1], a[2], b[2]])


def close(a, b, tol=1e-6):
    try:
        a, b = np.array(a, float), np.array(b, float)
    except Exception:
        return False
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))))


NAMES = ["SUN", "RING", "ARM_2", "P-7", "sun", "Ring Gear", "CASE.X", "Ünit", "BASE", "0"]


class Run:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.log, self.events, self.bad = ctx, rng, [], [], False
        self.dir = tempfile.mkdtemp(dir=BASE)
        self.stl = os.path.join(self.dir, "stl")
        self.pts = {}
        self.names = rng.sample(NAMES, rng.randint(2, 6))
        for n in self.names + ["sub/a", "sub/b"]:
            f = (n if rng.random() < .7 else n.lower()) + ".stl"
            self.pts[f] = write_stl(os.path.join(self.stl, f), rng)
        for n in self.names:  # the exact name wins over the lower-case one
            if n + ".stl" in self.pts and n.lower() + ".stl" not in self.pts and rng.random() < .2:
                self.pts[n.lower() + ".stl"] = write_stl(os.path.join(self.stl, n.lower() + ".stl"), rng)
        self.posfile = os.path.join(self.dir, "pos.json") if rng.random() < .8 else None
        self.cmdfile = os.path.join(self.dir, "cmd.txt") if rng.random() < .7 else None
        kw = {}
        if rng.random() < .4:
            kw["default_opacity"] = round(rng.uniform(.5, 1), 2)
        if rng.random() < .4:
            kw["xray_opacity"] = round(rng.uniform(.1, .6), 2)
        if rng.random() < .4:
            kw["color_palette"] = {c: tuple(round(rng.random(), 2) for _ in range(3)) for c in ["red", "sky", "x1"][:rng.randint(0, 3)]}
        if rng.random() < .3:
            kw["enable_multi_viewport"] = False
        if rng.random() < .3:
            kw["screenshot_dir"] = os.path.join(self.dir, "shots", "deep")
        if rng.random() < .3:
            kw["default_color"] = (.1, .2, .3)
        self.positions, self.filepos = {}, {}
        if self.posfile and rng.random() < .8:
            self.write_pos()
            self.positions = self.filepos
        self.cfg = ViewerConfig(stl_dir=self.stl, positions_file=self.posfile, command_file=self.cmdfile, **kw)
        self.v = VTKViewer(self.cfg)
        for e in EVENTS:
            self.v.on_event(e, self.events.append)
        self.s = ViewerAPIServer(self.v)
        self.vps = ["ISO", "TOP", "FRONT", "SIDE"] if self.cfg.enable_multi_viewport else ["ISO"]
        self.palette = list(self.cfg.color_palette.values())
        self.parts, self.ci, self.xray, self.op = {}, 0, False, self.cfg.default_opacity
        self.cam = {}
        self.reset_model()
        self.t = time.time() + 100
        self.kw = kw

    # -- model
    def reset_model(self):
        if self.parts:
            B = np.array([box(p["pts"], p["M"]) for p in self.parts.values()])
            c = [(B[:, 2 * i].min() + B[:, 2 * i + 1].max()) / 2 for i in range(3)]
        else:
            c = [0, 0, 100]
        for vp in self.vps:
            self.cam[vp] = dict(f=c, d=vp, u=(0, 1, 0) if vp == "TOP" else (0, 0, 1))

    def write_pos(self):
        r, P = self.rng, {}
        for n in r.sample(self.names + ["GHOST"], r.randint(1, len(self.names) + 1)):
            d = {}
            if r.random() < .8:
                d["transform_matrix"] = rmat(r)
            if r.random() < .5:
                d["stl_file"] = r.choice(sorted(self.pts) + ["gone.stl"])
            if r.random() < .4:
                d["color"] = [round(r.random(), 2) for _ in range(3)]
            P[n] = d
        with open(self.posfile, "w") as f:
            json.dump(P, f)
        self.filepos = P

    def m_add(self, name, stl, M, color, exp):
        """the model's add_part; exp: expected events"""
        if stl not in self.pts:
            exp.append(("error", dict(code="LOAD_ERROR")))
            return False
        if name in self.parts:
            del self.parts[name]
            exp.append(("part_removed?", dict(part_name=name)))
            self.ctx.ev("replaced")
        if color is None:
            if self.palette:
                color = self.palette[self.ci % len(self.palette)]
                self.ci += 1
            else:
                color = self.cfg.default_color
        self.parts[name] = dict(pts=self.pts[stl], M=np.array(M if M is not None else np.eye(4), float), color=tuple(color), op=self.op)
        exp.append(("part_loaded", dict(part_name=name, bounds=box(self.pts[stl], self.parts[name]["M"]), color=tuple(color), stl_file=os.path.join(self.stl, stl))))
        return True

    def m_clear(self, exp):
        exp.append(("parts_cleared", dict(previous_count=len(self.parts))))
        self.parts, self.ci = {}, 0

    # -- channels: each returns ("ok", value) or ("err", detail)
    def api(self, f, *a, **k):
        try:
            return "ok", f(*a, **k)
        except Exception as e:
            return "err", type(e).__name__

    def rest(self, path, body):
        self.ctx.ev("rest")
        st, d = self.s.app.call("POST", path, json.loads(json.dumps(body)))
        return ("ok", d) if st == 200 else ("err", st)

    def sock(self, cmd, params):
        self.ctx.ev("socket")
        fakevtk.replies.clear()
        self.s.socketio.handlers["command"](json.loads(json.dumps({"command": cmd, "params": params})))
        r = [x for x in fakevtk.replies if x[1] == "command_result"]
        if len(r) != 1 or r[0][2].get("command") != cmd:
            self.viol("socket:answer", f"answers {fakevtk.replies}")
            return "err", None
        return ("ok", r[0][2]) if r[0][2]["success"] else ("err", "ws")

    def file(self, text):
        self.ctx.ev("file")
        self.t += 10
        with open(self.cmdfile, "w") as f:
            f.write(text)
        os.utime(self.cmdfile, (self.t, self.t))
        tick = self.v.interactor.observers["TimerEvent"]
        n = len(self.events)
        tick(None, None)
        tick(None, None)
        left = open(self.cmdfile).read()
        if left.strip():
            self.viol("file:emptied", f"{text!r} left {left!r} in the command file")
        if any(e.event_type == "error" and e.code == "COMMAND_ERROR" for e in self.events[n:]):
            return "err", "file"
        return "ok", None

    def key(self, k):
        self.v.interactor.GetKeySym = lambda: k
        self.v.interactor.observers["KeyPressEvent"](None, None)
        return "ok", None

    def viol(self, mech, msg):
        self.bad = True
        self.ctx.viol(mech, f"{msg}; after {self.log[-8:]}", {"config": {k: str(v) for k, v in self.kw.items()}, "log": self.log})

    def any(self, api, rest=None, sock=None, file=None, key=None):
        """one command over a random channel -> (channel, outcome, value)"""
        opts = [("api", api)] * 2
        opts += [("rest", rest)] if rest else []
        opts += [("sock", sock)] if sock else []
        opts += [("file", file)] if file and self.cmdfile else []
        opts += [("key", key)] if key else []
        ch, f = self.rng.choice(opts)
        self.ch = ch
        n, m = len(self.events), len(self.s.socketio.sent)
        out = f()
        self.new = self.events[n:]
        self.sent = self.s.socketio.sent[m:]
        return ch, out[0], out[1]

    # -- monitors
    def monitor(self, exp, what):
        ctx = self.ctx
        ctx.ev("commands")
        ctx.ev("events", len(self.new))
        got = list(self.new)
        # broadcasts: every event exactly once to everyone
        want = [(e.event_type, e.to_dict()) for e in got]
        if [(a, b) for a, b, c in self.sent] != want or any(c is not None for _, _, c in self.sent):
            return self.viol("broadcast", f"{what}: events {want} but sent {self.sent}")
        i = 0
        for kind, data in exp:
            opt = kind.endswith("?")
            kind = kind.rstrip("?")
            e = got[i] if i < len(got) else None
            if e is None or e.event_type != kind:
                if opt:
                    continue
                return self.viol("events:missing", f"{what}: expected event {kind} {data}, got {want}")
            i += 1
            for k, x in data.items():
                y = getattr(e, k, None)
                ok = close(y, x) if isinstance(x, (np.ndarray, tuple, float)) and not isinstance(y, str) else (list(y) == x if isinstance(x, list) and y is not None else y == x)
                if not ok:
                    return self.viol("events:data", f"{what}: event {kind} has {k}={y!r}, expected {x!r}")
        if i < len(got):
            return self.viol("events:extra", f"{what}: unexpected events {want[i:]}")
        self.scene(what)

    def scene(self, what):
        v = self.v
        self.ctx.ev("scenes")
        if list(v.actors) != list(v.get_part_names()) or set(v.actors) != set(self.parts):
            return self.viol("scene:parts", f"{what}: parts {list(v.actors)}, expected {list(self.parts)}")
        ids = sorted(id(a) for a in v.actors.values())
        if sorted(v.renderers) != sorted(self.vps) or any(sorted(id(a) for a in r.actors) != ids for r in v.renderers.values()):
            return self.viol("scene:actors", f"{what}: {len(ids)} parts but {[len(r.actors) for r in v.renderers.values()]} actors drawn")
        for n, p in self.parts.items():
            a = v.actors[n]
            g = a.GetMapper().GetInput().pts
            if g.shape != p["pts"].shape or not np.array_equal(g, p["pts"]):
                return self.viol("scene:shape", f"{what}: {n} does not have the shape of its file")
            t = a.GetUserTransform()
            if not close(np.eye(4) if t is None else t.m, p["M"]):
                return self.viol("scene:pose", f"{what}: {n} placed at {None if t is None else t.m.tolist()}, expected {p['M'].tolist()}")
            if not close(v.get_part_bounds(n), box(p["pts"], p["M"])):
                return self.viol("scene:bounds", f"{what}: bounds of {n} {v.get_part_bounds(n)}")
            if not close(a.prop.color, p["color"]):
                return self.viol("scene:colour", f"{what}: {n} coloured {a.prop.color}, expected {p['color']}")
            if abs(a.prop.opacity - p["op"]) > 1e-9:
                return self.viol("scene:opacity", f"{what}: {n} has opacity {a.prop.opacity}, expected {p['op']}")
        if v.get_part_bounds("no such part") is not None:
            return self.viol("scene:bounds", "bounds of an unknown part")
        if bool(v.xray_mode) != self.xray:
            return self.viol("scene:xray", f"{what}: xray_mode {v.xray_mode}")
        for vp, c in self.cam.items():
            s = v.get_camera_state(vp)
            k = v.renderers[vp].cam
            if (tuple(s["position"]), tuple(s["focal_point"]), tuple(s["view_up"])) != (k.GetPosition(), k.GetFocalPoint(), k.GetViewUp()):
                return self.viol("camera:state", f"{what}: {vp} reported {s}")
            if not close(s["focal_point"], c["f"]):
                return self.viol("camera:aim", f"{what}: {vp} looks at {s['focal_point']}, expected {c['f']}")
            if "p" in c:
                ok = close(s["position"], c["p"])
            else:
                d = np.array(s["position"], float) - np.array(c["f"])
                n = np.linalg.norm(d)
                ok = n > 0 and (bool((d > 0).all()) if vp == "ISO" else close(d / n, DIRS[vp]))
            if not ok:
                return self.viol("camera:place", f"{what}: {vp} at {s['position']}, aims {s['focal_point']}, expected {c}")
            if c.get("u") is not None and not close(s["view_up"], c["u"]):
                return self.viol("camera:up", f"{what}: {vp} up {s['view_up']}, expected {c['u']}")
        if self.rng.random() < .15:
            self.reports(what)

    def reports(self, what):
        call = self.s.app.call
        st, d = call("GET", "/status")
        s = self.v.get_camera_state("ISO")
        if st != 200 or (d["part_count"], bool(d["xray_enabled"])) != (len(self.parts), self.xray) or not close(d["camera_position"], s["position"]) or not close(d["camera_focal_point"], s["focal_point"]):
            return self.viol("report:status", f"{what}: {d}")
        json.dumps(d)
        fakevtk.replies.clear()
        self.s.socketio.handlers["connect"]()
        if [(x[1], x[2]) for x in fakevtk.replies] != [("status", d)]:
            return self.viol("report:connect", f"{what}: {fakevtk.replies} instead of the status {d}")
        st, d = call("GET", "/parts")
        json.dumps(d)
        if st != 200 or d["count"] != len(self.parts) or [x["name"] for x in d["parts"]] != list(self.v.actors) or any(not close(x["bounds"], box(self.parts[x["name"]]["pts"], self.parts[x["name"]]["M"])) for x in d["parts"]):
            return self.viol("report:parts", f"{what}: {d}")
        for vp in self.vps:
            st, d = call("GET", "/camera", viewport=vp)
            s = self.v.get_camera_state(vp)
            if st != 200 or any(not close(d[k], s[k]) for k in ("position", "focal_point", "view_up")):
                return self.viol("report:camera", f"{what}: {vp} {d}")
        if call("GET", "/camera", viewport="BACK")[0] != 400:
            return self.viol("report:camera", "unknown viewport accepted")
        st, d = call("GET", "/config")
        if st != 200 or json.loads(json.dumps(d)) != json.loads(json.dumps(self.cfg.to_dict())) or d["stl_dir"] != self.stl or d["default_opacity"] != self.cfg.default_opacity:
            return self.viol("report:config", f"{what}: {d}")

    # -- commands
    def pick(self):
        """a part name: usually loaded, sometimes known or unknown"""
        r = self.rng.random()
        if self.parts and r < .8:
            return self.rng.choice(list(self.parts))
        return self.rng.choice(self.names + ["NOBODY"])

    def fileok(self, *names):
        return all(n == n.upper() and " " not in n for n in names)

    def refused(self, ch, out, val, code, what):
        """the request must have been refused with nothing changed"""
        self.ctx.ev("refused")
        if out != "err":
            return self.viol("refused:accepted", f"{what} over {ch} succeeded")
        if ch == "rest" and val != code:
            return self.viol("refused:code", f"{what}: status {val}, expected {code}")
        if ch == "api" and val not in ("KeyError", "FileNotFoundError"):
            return self.viol("refused:kind", f"{what} raised {val}")
        self.monitor([("error", dict(code="COMMAND_ERROR"))] if ch == "file" else [], what)

    def step(self):
        r, v = self.rng, self.v
        num = lambda: round(r.uniform(-150, 150), 2)
        op = r.choice(["add", "add", "load", "load", "json", "remove", "clear", "reload", "pos", "xray", "xray", "highlight", "set", "orbit", "orbit", "focus", "focus", "reset", "move", "move", "moveto", "moveto", "shot", "bad"])
        exp = []
        if op == "add":
            n, f = r.choice(self.names), r.choice(sorted(self.pts) + ["gone.stl"])
            M = rmat(r) if r.random() < .6 else None
            c = tuple(round(r.random(), 2) for _ in range(3)) if r.random() < .4 else None
            self.log.append(["add", n, f, M, c])
            p = os.path.join(self.stl, f)
            ch, out, val = self.any(lambda: self.api(v.add_part, n, p if r.random() < .5 else Path(p), M, c))
            ok = self.m_add(n, f, M, c, exp)
            if out != "ok" or val is not ok:
                return self.viol("add:answer", f"{out} {val}, expected {ok}")
        elif op == "load":
            specs = []
            for _ in range(r.randint(0, 4)):
                sp = [r.choice(sorted(self.pts) + ["gone.stl"]), r.choice(self.names)]
                if r.random() < .6:
                    sp.append(r.choice(["red", "RED", "Sky", "blue", "nocolour", None]))
                specs.append(sp)
            clear = r.random() < .6
            dflt = clear and r.random() < .5
            self.log.append(["load", specs, clear])
            body = dict(parts=specs) if dflt else dict(parts=specs, clear=clear)
            ch, out, val = self.any(lambda: self.api(v.load_parts, [tuple(s) for s in specs], **({} if dflt else {"clear": clear})), lambda: self.rest("/load", body), lambda: self.sock("load", body))
            if clear:
                self.m_clear(exp)
            k = 0
            for sp in specs:
                P = self.positions.get(sp[1], {})
                c = self.cfg.color_palette.get(sp[2].lower(), self.cfg.default_color) if len(sp) > 2 and sp[2] else P.get("color")
                k += self.m_add(sp[1], sp[0], P.get("transform_matrix"), c, exp)
            self.reset_model()
            if out != "ok" or ch == "api" and val != k or ch == "rest" and (val["loaded"], val["success"]) != (k, True):
                return self.viol("load:answer", f"{out} {val}, expected {k} loaded")
        elif op == "json":
            if self.posfile and not self.filepos:
                gone = True
            else:
                gone = r.random() < .1 or not self.posfile
            path = os.path.join(self.dir, "nowhere.json") if gone else None
            explicit = gone or r.random() < .4
            path = path or self.posfile
            self.log.append(["json", path, explicit])
            body = {"positions_file": path} if explicit else {}
            ch, out, val = self.any(lambda: self.api(v.load_from_json, *([path] if explicit else [])), lambda: self.rest("/load", body), lambda: self.sock("load", body))
            if gone:
                return self.refused(ch, out, val, 400, "loading a missing positions file")
            self.positions = self.filepos
            self.m_clear(exp)
            k = 0
            for n, d in self.positions.items():
                f = d.get("stl_file") or next((x for x in (n + ".stl", n.lower() + ".stl") if x in self.pts), None)
                if f:
                    k += self.m_add(n, f, d.get("transform_matrix"), d.get("color"), exp)
            self.reset_model()
            if out != "ok" or ch == "api" and val != k or ch == "rest" and (val["loaded"], val["success"]) != (k, True):
                return self.viol("json:answer", f"{out} {val}, expected {k} loaded")
        elif op == "remove":
            n = self.pick()
            self.log.append(["remove", n])
            ch, out, val = self.any(lambda: self.api(v.remove_part, n))
            if (out, val) != ("ok", n in self.parts):
                return self.viol("remove:answer", f"remove_part({n!r}) {out} {val}")
            if self.parts.pop(n, None):
                exp.append(("part_removed", dict(part_name=n)))
        elif op == "clear":
            if r.random() < .6:
                return
            self.log.append(["clear"])
            ch, out, val = self.any(lambda: self.api(v.clear_parts), lambda: self.rest("/clear", {}), lambda: self.sock("clear", {}))
            self.m_clear(exp)
        elif op == "pos":
            if self.posfile:
                self.write_pos()
                self.log.append(["positions file rewritten", self.filepos])
            return
        elif op == "reload":
            if not self.posfile or not self.filepos:
                return
            self.log.append(["reload"])
            self.ctx.ev("reloads")
            ch, out, val = self.any(lambda: self.api(v.reload_positions), lambda: self.rest("/reload", {}), lambda: self.sock("reload", {}), lambda: self.file(r.choice(["reload", "RELOAD\n"])))
            self.positions = self.filepos
            for n, d in self.positions.items():
                if n in self.parts and "transform_matrix" in d:
                    self.parts[n]["M"] = np.array(d["transform_matrix"], float)
            if out != "ok":
                return self.viol("reload:answer", f"{out} {val}")
        elif op == "xray":
            mode = r.choice(["toggle", "toggle", "on", "off", "on-op"])
            o = round(r.uniform(.05, .9), 2) if mode == "on-op" or r.random() < .2 else None
            self.log.append(["xray", mode, o])
            if mode == "toggle":
                o = None
                ch, out, val = self.any(lambda: self.api(v.toggle_xray), lambda: self.rest("/xray", {}), lambda: self.sock("xray", {}), lambda: self.file("xray"), lambda: self.key(r.choice("xX")))
                on = not self.xray
            else:
                on = mode != "off"
                body = {"enabled": on} if o is None else {"enabled": on, "opacity": o}
                ch, out, val = self.any(lambda: self.api(v.set_xray, on, *([] if o is None else [o])), lambda: self.rest("/xray", body), lambda: self.sock("xray", body))
            self.xray = on
            self.op = (o if o is not None else self.cfg.xray_opacity) if on else self.cfg.default_opacity
            for p in self.parts.values():
                p["op"] = self.op
            exp.append(("xray_changed", dict(enabled=on, opacity=float(self.op))))
            if out != "ok" or ch == "rest" and (val["enabled"], val["opacity"]) != (on, self.op):
                return self.viol("xray:answer", f"{out} {val}, expected {on} {self.op}")
        elif op == "highlight":
            names = [self.pick() for _ in range(r.choice([0, 1, 1, 2, 3]))]
            dim = round(r.uniform(.05, .5), 2) if r.random() < .4 else None
            self.log.append(["highlight", names, dim])
            body = {"parts": names} if dim is None else {"parts": names, "dim_opacity": dim}
            ch, out, val = self.any(lambda: self.api(v.highlight_parts, names, *([] if dim is None else [dim])), lambda: self.rest("/highlight", body), lambda: self.sock("highlight", body), (lambda: self.file("highlight " + " ".join(names).lower())) if dim is None and self.fileok(*names) else None)
            for n, p in self.parts.items():
                p["op"] = 1.0 if not names or n in names else (.15 if dim is None else dim)
            exp.append(("selection_changed", dict(highlighted_parts=names)))
            if out != "ok":
                return self.viol("highlight:answer", f"{out} {val}")
        elif op == "set":
            p, f = (num(), num(), num()), (num(), num(), num())
            vp = r.choice(self.vps + ["ISO", "BACK"] if r.random() < .5 else ["ISO"])
            up = r.choice([(0, 1, 0), (1, 0, 0), (0, .6, .8)]) if r.random() < .4 else None
            self.log.append(["set", p, f, vp, up])
            body = {"position": p, "focal_point": f}
            if vp != "ISO" or r.random() < .3:
                body["viewport"] = vp
            if up:
                body["view_up"] = up
            short = vp == "ISO" and not up
            nof = short and r.random() < .3
            fc = (lambda: self.file("camera %s %s %s" % p + ("" if nof else " %s %s %s" % f))) if short else None
            ch, out, val = self.any(lambda: self.api(v.set_camera, **body), lambda: self.rest("/camera/set", body), lambda: self.sock("camera_set", body), fc)
            if vp not in self.vps:
                return self.refused(ch, out, val, 400, f"camera {vp}")
            if ch == "file" and nof:
                f = (0, 0, 100)
            self.cam[vp] = dict(p=p, f=f, u=up or (0, 0, 1))
            exp.append(("camera_changed", dict(viewport=vp, position=p, focal_point=f, view_up=up or (0, 0, 1))))
            if out != "ok":
                return self.viol("set:answer", f"{out} {val}")
        elif op == "orbit":
            a, e, d = num(), round(r.uniform(-90, 90), 1), round(r.uniform(1, 500), 1)
            vp = r.choice(self.vps + ["ISO", "BACK"] if r.random() < .5 else ["ISO"])
            self.log.append(["orbit", a, e, d, vp])
            body = {"azimuth": a, "elevation": e, "distance": d}
            if vp != "ISO" or r.random() < .3:
                body["viewport"] = vp
            ch, out, val = self.any(lambda: self.api(v.orbit_camera, **body), lambda: self.rest("/camera/orbit", body), lambda: self.sock("camera_orbit", body), (lambda: self.file(f"orbit {a} {e} {d}")) if vp == "ISO" else None)
            if vp not in self.vps:
                return self.refused(ch, out, val, 400, f"orbit {vp}")
            f = np.array(self.cam[vp]["f"], float)
            A, E = math.radians(a), math.radians(e)
            p = f + d * np.array([math.cos(E) * math.cos(A), math.cos(E) * math.sin(A), math.sin(E)])
            self.cam[vp] = dict(p=p, f=f, u=(0, 0, 1))
            exp.append(("camera_changed", dict(viewport=vp, position=p, focal_point=f, view_up=(0, 0, 1))))
            if out != "ok":
                return self.viol("orbit:answer", f"{out} {val}")
        elif op == "focus":
            n = self.pick()
            self.log.append(["focus", n])
            ch, out, val = self.any(lambda: self.api(v.focus_part, n), lambda: self.rest("/camera/focus", {"part": n}), lambda: self.sock("focus", {"part": n}), (lambda: self.file("focus " + n.lower())) if self.fileok(n) else None)
            if n not in self.parts:
                return self.refused(ch, out, val, 404, f"focus on unknown {n}")
            b = box(self.parts[n]["pts"], self.parts[n]["M"])
            for vp in self.vps:
                self.cam[vp] = dict(f=[(b[0] + b[1]) / 2, (b[2] + b[3]) / 2, (b[4] + b[5]) / 2], u=self.cam[vp]["u"] if self.cam[vp].get("u") is not None else None)
            if out != "ok":
                return self.viol("focus:answer", f"{out} {val}")
        elif op == "reset":
            self.log.append(["reset"])
            ch, out, val = self.any(lambda: self.api(v.reset_camera), lambda: self.rest("/camera/reset", {}), lambda: self.sock("camera_reset", {}), lambda: self.file("reset"), lambda: self.key("r"))
            self.reset_model()
        elif op in ("move", "moveto"):
            n, d = self.pick(), (num(), num(), num())
            self.log.append([op, n, d])
            k = ("dx", "dy", "dz") if op == "move" else ("x", "y", "z")
            body = {"part": n, **dict(zip(k, d))}
            ch, out, val = self.any(lambda: self.api(v.move_part if op == "move" else v.move_part_to, n, *d), lambda: self.rest("/" + op, body), lambda: self.sock("move" if op == "move" else "move_to", body), (lambda: self.file(f"{op} {n} {d[0]} {d[1]} {d[2]}")) if self.fileok(n) else None)
            if n not in self.parts:
                return self.refused(ch, out, val, 404, f"{op} of unknown {n}")
            self.ctx.ev("moves")
            p = self.parts[n]
            b = box(p["pts"], p["M"])
            T = np.eye(4)
            T[:3, 3] = d if op == "move" else np.array(d) - [(b[0] + b[1]) / 2, (b[2] + b[3]) / 2, (b[4] + b[5]) / 2]
            p["M"] = T @ p["M"]
            if out != "ok":
                return self.viol("move:answer", f"{out} {val}")
        elif op == "shot":
            fn = r.choice([None, "a.png", "view2.png"])
            dr = os.path.join(self.dir, "pics", "x") if r.random() < .4 else None
            self.log.append(["screenshot", fn, dr])
            body = {k: x for k, x in (("filename", fn), ("directory", dr)) if x}
            path = os.path.join(dr or self.kw.get("screenshot_dir") or os.path.join(self.stl, "renders"), fn or "screenshot.png")
            if os.path.exists(path):
                os.remove(path)
            ch, out, val = self.any(lambda: self.api(v.screenshot, fn, dr), lambda: self.rest("/screenshot", body), lambda: self.sock("screenshot", body), (lambda: self.file("screenshot" + (" " + fn if fn else ""))) if not dr else None)
            exp.append(("screenshot_saved", dict(filename=fn or "screenshot.png", filepath=path, size=tuple(self.cfg.window_size))))
            if out != "ok" or not os.path.isfile(path) or ch == "api" and val != path or ch == "rest" and val["filepath"] != path:
                return self.viol("screenshot", f"{out} {val}, expected {path}")
        elif op == "bad":
            path, cmd, full = r.choice([("/move", "move", dict(part="SUN", dx=1, dy=2, dz=3)), ("/moveto", "move_to", dict(part="SUN", x=1, y=2, z=3)), ("/camera/set", "camera_set", dict(position=[1, 2, 3], focal_point=[0, 0, 0])), ("/camera/orbit", "camera_orbit", dict(azimuth=1, elevation=2, distance=3)), ("/camera/focus", "focus", dict(part="SUN"))])
            if "part" in full:
                if not self.parts:
                    return
                full["part"] = r.choice(list(self.parts))
            full.pop(r.choice(list(full)))
            self.log.append(["bad", path, full])
            n, m = len(self.events), len(self.s.socketio.sent)
            if r.random() < .5:
                ch, (out, val) = "rest", self.rest(path, full)
            else:
                ch, (out, val) = "sock", self.sock(cmd, full)
            self.new, self.sent = self.events[n:], self.s.socketio.sent[m:]
            return self.refused(ch, out, val, 400, f"{path} with only {list(full)}")
        self.monitor(exp, self.log[-1][0] + " over " + self.ch)


def history(ctx, rng):
    R = Run(ctx, rng)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            R.new, R.sent = [], []
            R.scene("the new viewer")
            for _ in range(rng.randint(5, 40)):
                if R.bad:
                    break
                R.step()
            if not R.bad:
                R.reports("the end")
        ctx.case(repr((sorted(R.kw.items()), R.log)))
    finally:
        shutil.rmtree(R.dir, ignore_errors=True)


# ---------------------------------------------------------------- configuration

def config(ctx, rng):
    ctx.ev("configs")
    kw = dict(stl_dir=rng.choice(["/s", "rel/dir", "/a b/ü"]))
    opt = dict(positions_file="/p/x.json", command_file="c.txt", screenshot_dir="/shots", window_size=(rng.randint(1, 4000), rng.randint(1, 3000)), window_title=rng.choice(["", "T ü"]), background_color=(.1, round(rng.random(), 3), 0.0), default_opacity=round(rng.random(), 3), xray_opacity=round(rng.random(), 3), default_color=(.5, .25, round(rng.random(), 3)), color_palette={c: (round(rng.random(), 3), .5, 1.0) for c in ["a", "red", "zed"][:rng.randint(0, 3)]}, enable_multi_viewport=False, command_poll_interval_ms=rng.randint(1, 5000))
    for k, x in opt.items():
        if rng.random() < .5:
            kw[k] = x
    key = repr(kw)
    ctx.case(key)
    c = ViewerConfig(**kw)
    for k, x in kw.items():
        ctx.check(getattr(c, k) == x, "config:field", f"{k} is {getattr(c, k)!r}", key)
    d = c.to_dict()
    for k, x in kw.items():
        y = d.get(k)
        ctx.check((list(x) == y if isinstance(x, tuple) else {a: list(b) for a, b in x.items()} == y if isinstance(x, dict) else x == y), "config:dict", f"{k} is {y!r} in to_dict", key)
    before = json.dumps(d)
    c2 = ViewerConfig.from_dict(json.loads(before) if rng.random() < .5 else d)
    ctx.check(json.dumps(d) == before, "config:argument", f"from_dict changed its argument to {d}", key)
    ctx.check(json.dumps(c2.to_dict()) == before, "config:roundtrip", f"{c2.to_dict()} after {before}", key)
    for a in ("window_size", "background_color", "default_color", "color_palette", "default_opacity", "xray_opacity", "window_title", "enable_multi_viewport", "command_poll_interval_ms", "stl_path", "positions_path", "command_path", "screenshot_path"):
        ctx.check(getattr(c2, a) == getattr(c, a), "config:roundtrip", f"{a}: {getattr(c2, a)!r} from {getattr(c, a)!r}", key)
    ctx.check(c.screenshot_path == (Path(kw["screenshot_dir"]) if "screenshot_dir" in kw else Path(kw["stl_dir"]) / "renders"), "config:shots", f"{c.screenshot_path}", key)
    for n, x in c.color_palette.items():
        ctx.check(c.get_color(rng.choice([n, n.upper(), n.title()])) == x, "config:colour", n, key)
    ctx.check(c.get_color("no such colour") == c.default_color, "config:colour", "unknown", key)


# ---------------------------------------------------------------- whiteboard

def git(root, *a):
    return subprocess.run(["git", *a], cwd=root, capture_output=True, text=True)


def snapshot(top, skip):
    out = {}
    for d, ds, fs in os.walk(top):
        if d == skip:
            ds[:] = []
            continue
        for f in fs:
            p = os.path.join(d, f)
            out[p] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
        for x in ds:
            out[os.path.join(d, x)] = "dir"
    return out


def whiteboard(ctx, rng):
    top = tempfile.mkdtemp(dir=BASE)
    S = os.path.join(top, "deep", "er")
    root = os.path.join(S, "board")
    os.makedirs(os.path.join(root, "keep"))
    try:
        git(root, "init", "-q", "-b", "main")
        for p, t in [("secret.txt", "SECRET-1"), ("board-x/secret.txt", "SECRET-2"), ("out/secret.txt", "SECRET-3"), ("board/keep/a.dsl", "module a;\n")]:
            os.makedirs(os.path.dirname(os.path.join(S, p)), exist_ok=True)
            open(os.path.join(S, p), "w").write(t)
        os.symlink(os.path.join(S, "out"), os.path.join(root, "ln"))
        os.symlink(os.path.join(S, "secret.txt"), os.path.join(root, "fl.txt"))
        os.symlink("../board-x", os.path.join(root, "rl"))
        git(root, "add", "-A")
        git(root, "commit", "-qm", "start")
        srv = ViewerAPIServer(VTKViewer(ViewerConfig(stl_dir=S)))
        rounds = rng.randint(3, 7)
        files = {"keep/a.dsl": "module a;\n"}
        for _ in range(rounds):
            if not one_request(ctx, rng, srv, top, S, root, files):
                return
    finally:
        GUARD["on"] = None
        os.environ.pop("YAPCAD_WHITEBOARD_ROOT", None)
        shutil.rmtree(top, ignore_errors=True)


def one_request(ctx, rng, srv, top, S, root, files):
    mode = rng.choice(["ok", "ok", "ok", "bad", "bad", "off", "missing"])
    rd = rng.random() < .4
    content = rng.choice(["", "x\n", "module m;\ncommand A() -> solid: emit box(1,2,3)\n", "ünï ☃\n", "a\tb \n\n", "no newline"]) + (str(rng.randrange(1000)) if rng.random() < .6 else "")
    ok_paths = ["keep/a.dsl", "new.dsl", "sub/deep/er/x.dsl", "with space.dsl", "-dash.dsl", "ü.dsl", "keep/b", ".hidden.dsl", "git/x", "x.git.dsl", "./dot.dsl", "keep//c.dsl"]
    bad_paths = ["../secret.txt", "../board-x/secret.txt", "keep/../../secret.txt", os.path.join(S, "secret.txt"), os.path.join(S, "board-x", "secret.txt"), os.path.join(S, "new.txt"), "/" + os.path.join(S, "out", "secret.txt"), "ln/secret.txt", "ln/new.txt", "fl.txt", "rl/secret.txt", "rl/sub/new.txt", ".git/config", ".git/hooks/pre-commit", "keep/../.git/config", "..", ".", "./", "../board/.git/description", "sub/../../out/new", "./.git/new", ".GIT/new", "ln", os.path.join(S, "board-x"), "../../x", os.path.join(root, ".git", "HEAD"), root, root + "-x/secret.txt", root + "/../secret.txt", "ln/../secret.txt"]
    rel = rng.choice(ok_paths if mode != "bad" else bad_paths)
    msg = rng.choice(["", "", "a message", "-m odd", "  padded  "])
    key = repr((mode, rd, rel, content, msg, sorted(files.items()))).replace(S, "S")
    ctx.case(key)
    os.environ.pop("YAPCAD_WHITEBOARD_ROOT", None)
    if mode == "off":
        if rng.random() < .5:
            os.environ["YAPCAD_WHITEBOARD_ROOT"] = rng.choice(["", "  "])
    else:
        os.environ["YAPCAD_WHITEBOARD_ROOT"] = rng.choice([root, root + "/", root + "/keep/..", S + "/./board"])
    before = snapshot(top, os.path.join(root, ".git"))
    head = git(root, "rev-parse", "HEAD").stdout
    body = {"path": rng.choice([rel, " " + rel + " "]), "content": content}
    if msg:
        body["message"] = msg
    if mode == "missing":
        body.pop(rng.choice(["path", "content"] if not rd else ["path"]))
        if "path" in body and rng.random() < .3:
            body = {"path": " ", "content": content}
    bad = lambda mech, m: ctx.viol("whiteboard:" + mech, f"{'read' if rd else 'save'} {body} ({mode}): {m}", key)
    GUARD["hits"], GUARD["on"] = [], root if mode != "off" else os.path.join(top, "nothing")
    exc = None
    try:
        try:
            st, d = srv.app.call("GET", "/api/whiteboard/read", None, **({"path": body["path"]} if "path" in body else {})) if rd else srv.app.call("POST", "/api/whiteboard/save", body)
        except Exception as e:
            exc, st, d = e, 500, {}
    finally:
        GUARD["on"] = None
    after = snapshot(top, os.path.join(root, ".git"))
    changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p))
    head2 = git(root, "rev-parse", "HEAD").stdout
    if GUARD["hits"]:
        bad("escape", f"tried to write {GUARD['hits']}")
        return False
    norm = os.path.normpath(rel)
    if mode in ("off", "missing", "bad"):
        if mode == "bad":
            ctx.ev("hostile")
        want = 501 if mode == "off" else 400
        if st != want:
            if "SECRET" in repr(d) or ".git" in rel and "content" in d:
                bad("leak", f"answered {st} {d}")
            else:
                bad("refused", f"answered {st} {d} {exc!r}, expected {want}")
            return False
        if changed or head2 != head or "SECRET" in repr(d):
            bad("changed", f"refused, but {changed or 'a commit was made' if head2 != head else d}")
            return False
        return True
    if rd:
        ctx.ev("reads")
        if norm in files:
            if st != 200 or d["content"] != files[norm]:
                bad("read", f"answered {st} {d} {exc!r}, expected {files[norm]!r}")
                return False
        elif st != 404:
            bad("read", f"answered {st} {d} for a file that is not there")
            return False
        if changed or head2 != head:
            bad("changed", f"reading changed {changed}")
            return False
        return True
    ctx.ev("saves")
    same = files.get(norm) == content
    f = os.path.join(root, norm)
    if st != 200 or not d.get("success"):
        bad("save", f"answered {st} {d} {exc!r}")
        return False
    files[norm] = content
    other = [p for p in changed if p != f and not (after.get(p) == "dir" and f.startswith(p + os.sep))]
    if other or not os.path.isfile(f) or open(f, "rb").read() != content.encode():
        bad("content", f"wrote {changed}, {after.get(f)!r}")
        return False
    if bool(d["committed"]) == same or (head2 != head) == same:
        bad("commit", f"committed={d['committed']} where the content was {'the same' if same else 'new'}, HEAD {head.strip()} -> {head2.strip()}")
        return False
    if not same:
        show = subprocess.run(["git", "show", "HEAD:" + norm], cwd=root, capture_output=True).stdout
        names = git(root, "-c", "core.quotepath=off", "diff", "--name-only", "HEAD~1", "HEAD").stdout.split("\n")[:-1]
        subj = git(root, "log", "-1", "--format=%s").stdout.rstrip("\n")
        want = msg.strip() or f"Update {body['path'].strip()} from yapCAD viewer"
        if show != content.encode() or names != [norm] or git(root, "rev-parse", "HEAD~1").stdout != head:
            bad("commit", f"the commit changes {names} and has {show!r}")
            return False
        if not head2.startswith(d["sha"]) or d["sha"] == "" or subj != want or d["message"] != want or os.path.realpath(d["filepath"]) != f:
            bad("answer", f"answered {d}; HEAD is {head2.strip()}, message {subj!r}, expected {want!r}")
            return False
    return True


GROUPS = {"history": (history, 1500, 20000), "config": (config, 200, 3000), "whiteboard": (whiteboard, 200, 2500)}

if __name__ == "__main__":
    vf.main(globals())
