import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json, math, threading, time
import vf

PROP = "C34"
LEVEL = "exploration"
META = dict(
    title="HTTP and WebSocket service answers what the library computes",
    statement="Each service endpoint answers with what the library gives for the same request: /dsl/eval returns the emitted geometry as a geometry document that reads back to the same solids, surfaces and sketches (a string as assembly_snapshot), /dsl/ui_eval the emitted scalar or list and its type, /dsl/assembly_eval the emitted string and a failure for anything else; failed requirements, missing or unknown commands and arguments and evaluation errors give success=false with the message, never a server error or a partial result. /dsl/commands lists every command with its parameters, types, literal defaults, hints and return type; /dsl/parse gives every node of the syntax tree; source that does not parse is answered 400. /tessellate gives every triangle of every solid and surface once, with valid indices and as many normals as vertices; /boolean the library's boolean of the first solids, and 400 for unknown engines, documents without a solid or unreadable documents. Requests evaluated at the same time do not influence each other. An evaluation over its time limit is answered (408) when the limit is over, not when the evaluation ends. On the WebSocket every eval that is not cancelled or superseded gets exactly one result, with its own request_id and equal to the REST answer; a cancelled one gets none; each bad message gets one error and the connection goes on.",
    over=["inputs", "histories", "schedules"], q="for all requests, message sequences and concurrent interleavings",
    why="The viewer and agents see the library only through the service: a wrong, mixed up or missing answer is a wrong model on the screen with nothing to show that it is wrong.",
    files=["service/routes/dsl.py", "service/routes/geometry.py", "service/core/dsl_runner.py", "service/core/tessellator.py", "service/core/ast_serialize.py", "service/routes/system.py"],
    mech=[("dsl_eval", "service/routes/dsl.py"), ("ws_dsl_eval", "service/routes/dsl.py"), ("eval_dsl", "service/core/dsl_runner.py"), ("solidish_to_mesh", "service/core/tessellator.py")],
    technique="requests through the real ASGI app against direct library calls and closed-form sizes; concurrent requests under a tiny thread switch interval against sequential answers; WebSocket message logs checked for exactly-once results",
    note="Exploration, in-process through starlette's test client (no sockets). Python threads are switched every microsecond to provoke races; the schedules seen are those of the interpreter. Time limits are tested with a sleeping stand-in for the evaluation.",
)
RULE = "random requests, sources, message sequences and concurrent batches; distinct by the recipe"
REQUIRE = {"eval": 150, "eval:geom": 80, "eval:fail": 60, "ui": 120, "assembly": 80, "commands": 60, "param": 200, "parse": 40, "node": 3000, "refused": 150, "tess": 80, "tess:tri": 2000, "boolean": 40, "concurrent": 250, "ws": 30, "ws:result": 60, "ws:cancelled": 20, "ws:superseded": 15, "ws:error": 40, "timeout": 6, "system": 4}
WALL_QUICK = 240
CASE_LIMIT = 90


def init():
    global np, TestClient, app, DR, RD, GJ, G3, GU, mesh3, gendsl, car, TK, SYM, NODES, is_dataclass, dfields, Enum, anyio
    sys.path.insert(0, vf.REPO)
    import numpy as np
    from fastapi.testclient import TestClient
    from service.main import app
    from service.core import dsl_runner as DR
    from service.routes import dsl as RD
    from yapcad.io import geometry_json as GJ
    import yapcad.geom3d as G3
    import yapcad.geom3d_util as GU
    import mesh3
    from yapcad.dsl.runtime.interpreter import compile_and_run as car
    from dataclasses import is_dataclass, fields as dfields
    from enum import Enum
    import anyio
    import logging, warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


SRC = '''module svc;
command BOX(w: float, d: float = 2.0, h: float = 3.0) -> solid { emit box(w, d, h); }
command CYL(r: float, h: float) -> solid { emit cylinder(r, h); }
command SPH(r: float) -> solid { emit sphere(r); }
command CONE(a: float, b: float, h: float) -> solid { emit cone(a, b, h); }
command MANY(w: float, n: int) -> list<solid> { let out: list<solid> = [box(w + 1.0 * i, 1.0, 1.0) for i in range(n)]; emit out; }
command MOVED(w: float, x: float) -> solid { let b: solid = box(w, w, w); emit translate(b, x, 2.0 * x, 0.0 - x); }
command RECT(w: float, h: float) -> region2d { emit rectangle(w, h); }
command SCALE(x: float, k: float = 2.0) -> float { emit x * k; }
command COUNT(n: int) -> int :
    s: int = 0
    for i in range(n):
        s = s + i
    emit s

command FLAG(x: float) -> bool { emit x > 1.0; }
command LIST(x: float, n: int) -> list<float> { let out: list<float> = [x + 1.0 * i for i in range(n)]; emit out; }
command TEXT(s: string) -> string { emit s; }
command REQ(x: float) -> solid { require x > 0.0, "x must be positive"; emit box(x, x, x); }
command NONE(x: float) -> float { let y: float = x; }
command DIVZ(x: float) -> float { emit x / 0.0; }
'''


def request(rng):
    """(command, parameters, kind, expectation)"""
    u = lambda: round(rng.uniform(0.5, 9), 3)
    k = rng.randrange(16)
    if k == 0:
        p = {"w": u()}
        if rng.random() < 0.5:
            p["d"] = u()
        if rng.random() < 0.5:
            p["h"] = u()
        return "BOX", p, "solid", [p["w"] * p.get("d", 2.0) * p.get("h", 3.0)]
    if k == 1:
        return "CYL", {"r": u(), "h": u()}, "solid", None
    if k == 2:
        return "SPH", {"r": u()}, "solid", None
    if k == 3:
        return "CONE", {"a": u(), "b": u(), "h": u()}, "solid", None
    if k == 4:
        w, n = u(), rng.randint(1, 4)
        return "MANY", {"w": w, "n": n}, "solid", [w + i for i in range(n)]
    if k == 5:
        w = u()
        return "MOVED", {"w": w, "x": u()}, "solid", [w ** 3]
    if k == 6:
        return "RECT", {"w": u(), "h": u()}, "sketch", None
    if k == 7:
        p = {"x": u()}
        if rng.random() < 0.5:
            p["k"] = u()
        return "SCALE", p, "scalar", ([p["x"] * p.get("k", 2.0)], "float")
    if k == 8:
        n = rng.randint(0, 30)
        return "COUNT", {"n": n}, "scalar", ([n * (n - 1) // 2], "int")
    if k == 9:
        x = rng.choice([0.5, 1.5, 3.0])
        return "FLAG", {"x": x}, "scalar", ([x > 1.0], "bool")
    if k == 10:
        x, n = u(), rng.randint(1, 5)
        return "LIST", {"x": x, "n": n}, "scalar", ([x + i for i in range(n)], "float")
    if k == 11:
        s = "".join(rng.choice("abc {}\"'\\\n\u00e9\u4e2d:,") for _ in range(rng.randint(0, 12)))
        return "TEXT", {"s": s}, "string", s
    if k == 12:
        return "REQ", {"x": -u()}, "fail", "x must be positive"
    if k == 13:
        return rng.choice([("NOPE", {}, "fail", "NOPE"), ("BOX", {}, "fail", "w"), ("NONE", {"x": 1.0}, "fail", ""), ("BOX", {"w": "wide"}, "fail", "")])
    if k == 14:
        return "DIVZ", {"x": u()}, "fail", ""
    return "REQ", {"x": u()}, "solid", None


def mesh_of(entities):
    """sorted triangle soup of solids/surfaces, from the library values"""
    out = []
    for e in entities:
        if G3.issolid(e) or G3.issurface(e):
            out.append(np.round(np.array(mesh3.tris(e)).reshape(-1, 3, 3), 9))
    return out


def direct(cmd, par, src=SRC):
    return car(source=src, command_name=cmd, parameters=par)


def listed(g):
    if g is None:
        return []
    if G3.issolid(g) or G3.issurface(g):
        return [g]
    if isinstance(g, list) and g and all(G3.issolid(x) or G3.issurface(x) for x in g):
        return g
    return [g]


def same_geometry(doc, geom):
    """does the geometry document read back to the same solids (order kept)?"""
    ents = GJ.geometry_from_json(doc)
    sol = [e for e in ents if G3.issolid(e)]
    want = [e for e in listed(geom) if G3.issolid(e)]
    if len(sol) != len(want):
        return "%d solids, %d emitted" % (len(sol), len(want))
    for a, b in zip(sol, want):
        ta, tb = np.array(mesh3.tris(a)), np.array(mesh3.tris(b))
        if ta.shape != tb.shape or not np.allclose(ta, tb, atol=1e-9):
            return "a solid differs"
    return ""


def judge_eval(ctx, cmd, par, kind, exp, status, j, d, mech):
    """an /dsl/eval style answer against the request"""
    ok = status == 200 and isinstance(j, dict)
    if not ctx.check(ok, mech + "status", "the answer to an evaluation is not 200", d):
        return
    if kind == "solid":
        ctx.ev("eval:geom")
        if not ctx.check(j["success"] is True and j["geometry"] and not j.get("error_message") and j.get("assembly_snapshot") is None, mech + "geom", "a command that emits solids is not answered with geometry", d):
            return
        r = direct(cmd, par)
        diff = same_geometry(j["geometry"], r.geometry)
        ctx.check(not diff, mech + "same", "the geometry answered is not the geometry emitted: " + diff, d)
        if exp:
            v = [mesh3.volume(np.array(mesh3.tris(s))) for s in GJ.geometry_from_json(j["geometry"]) if G3.issolid(s)]
            ctx.check(len(v) == len(exp) and all(abs(a - b) < 1e-6 * (1 + b) for a, b in zip(v, exp)), mech + "volume", "the geometry answered does not have the volume asked for", dict(d, vol=v, want=exp))
    elif kind == "sketch":
        ctx.check(j["success"] is True and j["geometry"] and len(j["geometry"]["entities"]) >= 1, mech + "sketch", "a sketch is not answered with geometry", d)
    elif kind == "string":
        ctx.check(j["success"] is True and j["assembly_snapshot"] == exp and j["geometry"] is None, mech + "string", "an emitted string is not answered as the assembly snapshot", d)
    elif kind == "scalar":
        ctx.check(j["success"] is False and j["geometry"] is None and j["error_message"], mech + "scalar", "an emitted scalar is answered as if it were geometry", d)
    else:
        ctx.ev("eval:fail")
        ctx.check(j["success"] is False and j["geometry"] is None and j.get("assembly_snapshot") is None and j["error_message"] and exp in j["error_message"], mech + "fail", "a failed evaluation is not answered with success=false and its message", d)


def g_eval(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    cmd, par, kind, exp = request(rng)
    ctx.case((cmd, json.dumps(par)))
    body = {"source": SRC, "command": cmd, "parameters": par}
    d = {"cmd": cmd, "par": par, "kind": kind}
    r = c.post("/dsl/eval", json=dict(body, **({"format": "json"} if rng.random() < 0.5 else {})))
    j = r.json() if r.status_code == 200 else None
    ctx.ev("eval")
    d["answer"] = r.text[:800]
    judge_eval(ctx, cmd, par, kind, exp, r.status_code, j, d, "eval:")
    if j:
        x = direct(cmd, par)
        ctx.check([f["message"] for f in j["require_failures"]] == [f.message for f in x.require_failures or []], "require", "the failed requirements are not listed", d)
        ctx.check((j["provenance"] is None) == (getattr(x, "provenance", None) is None) and (not j["provenance"] or {k: v for k, v in j["provenance"].items() if "time" not in k.lower()}.keys() == {k: v for k, v in x.provenance.to_dict().items() if "time" not in k.lower()}.keys()), "prov", "the provenance is missing", d)
    r = c.post("/dsl/ui_eval", json=body)
    ctx.ev("ui")
    d["answer"] = r.text[:800]
    if ctx.check(r.status_code == 200, "ui:status", "the answer to ui_eval is not 200", d):
        j = r.json()
        if kind == "scalar":
            v, t = exp
            ctx.check(j["success"] is True and isinstance(j["values"], list) and len(j["values"]) == len(v) and all(type(a) is type(b) and (abs(a - b) < 1e-9) for a, b in zip(j["values"], v)) and j["type"] == t and not j["error_message"], "ui:value", "ui_eval does not answer the emitted values and their type", dict(d, want=exp))
        elif kind == "string":
            ctx.check(j["success"] is True and j["values"] == [exp] and j["type"] == "string", "ui:string", "ui_eval does not answer the emitted string", dict(d, want=exp))
        elif kind == "fail":
            ctx.check(j["success"] is False and not j["values"] and j["error_message"] and exp in j["error_message"], "ui:fail", "ui_eval does not report the failure", d)
    r = c.post("/dsl/assembly_eval", json=body)
    ctx.ev("assembly")
    d["answer"] = r.text[:800]
    if ctx.check(r.status_code == 200, "as:status", "the answer to assembly_eval is not 200", d):
        j = r.json()
        if kind == "string":
            ctx.check(j["success"] is True and j["assembly_snapshot"] == exp and not j["error_message"], "as:string", "assembly_eval does not answer the emitted string", dict(d, want=exp))
        else:
            ctx.check(j["success"] is False and j["assembly_snapshot"] is None and j["error_message"] and (kind != "fail" or exp in j["error_message"]), "as:fail", "assembly_eval does not refuse what is no string", d)
    # malformed requests
    bad = rng.choice([{"source": SRC}, {"command": cmd}, {"source": SRC, "command": cmd, "parameters": 3}, {"source": SRC, "command": cmd, "format": "stl"}, {"source": 5, "command": cmd}])
    r = c.post("/dsl/eval", json=bad)
    ctx.ev("refused")
    ctx.check(r.status_code in (400, 422), "badreq", "a malformed request is not refused", {"body": {k: str(v)[:60] for k, v in bad.items()}, "status": r.status_code})
    broken = rng.choice([SRC[:-3], SRC + "\ncommand", "module ;", "garbage $$", SRC.replace("emit box(w, d, h);", "emit boxx(w, d, h);"), SRC.replace("-> bool {", "-> solid {")])
    r = c.post("/dsl/eval", json={"source": broken, "command": "BOX", "parameters": {"w": 1.0}})
    ctx.ev("refused")
    ctx.check(r.status_code == 400 or (r.status_code == 200 and r.json()["success"] is False and r.json()["error_message"] and r.json()["geometry"] is None), "broken", "broken source is not refused with a message", {"source": broken[-200:], "status": r.status_code, "answer": r.text[:300]})


TYPES = ["int", "float", "bool", "string", "point", "vector", "solid", "region2d", "list<float>", "list<int>"]


def g_commands(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    lines, want, metas = ["module m%d;" % rng.randrange(1000)], [], {}
    vals = {"float": "1.0", "int": "1", "bool": "true", "string": '"s"', "list<float>": "[1.0]", "solid": "box(1.0, 1.0, 1.0)"}
    for k in range(rng.randint(1, 6)):
        name = rng.choice(["Make", "PART_", "do_it", "X"]) + str(k)
        ps, wp, seendef = [], [], False
        for i in range(rng.randint(0, 5)):
            t = rng.choice(TYPES)
            df, dv = "", None
            if (seendef or rng.random() < 0.4) and t in ("int", "float", "bool", "string"):
                seendef = True
                dv = {"int": rng.randint(-50, 50), "float": round(rng.uniform(-50, 50), 3), "bool": rng.random() < 0.5, "string": rng.choice(["", "abc", "a b"])}[t]
                df = " = " + (json.dumps(dv) if t != "bool" else str(dv).lower())
            elif seendef:
                continue
            ui, hint = "", None
            if rng.random() < 0.3:
                hint = {"widget": rng.choice(["slider", "circle_r"]), "min": rng.choice([0.0, -5.5, 3]), "flags": [1, -2.5, "x"], "snap": rng.random() < 0.5}
                hint = {k: hint[k] for k in rng.sample(list(hint), rng.randint(1, 4))}
                ui = " @ui(" + ", ".join("%s=%s" % (k, json.dumps(v)) for k, v in hint.items()) + ")"
            ps.append("p%d: %s%s%s" % (i, t, ui, df))
            wp.append(("p%d" % i, t.split("<")[0], dv, hint))
        rt = rng.choice(list(vals))
        meta = None
        if rng.random() < 0.3:
            meta = {"label": rng.choice(["hinge", "a b"]), "operation.kind": "subtract"}
            meta = {k: meta[k] for k in rng.sample(list(meta), rng.randint(1, 2))}
            lines.append("@meta(" + ", ".join("%s=%s" % (k, json.dumps(v)) for k, v in meta.items()) + ")")
        metas[name] = meta
        lines.append("command %s(%s) -> %s { emit %s; }" % (name, ", ".join(ps), rt, vals[rt]))
        want.append((name, wp, rt.split("<")[0]))
    src = "\n".join(lines) + "\n"
    ctx.case(src)
    r = c.post("/dsl/commands", json={"source": src})
    ctx.ev("commands")
    d = {"source": src, "answer": r.text[:1200], "want": want}
    if not ctx.check(r.status_code == 200, "cmd:status", "/dsl/commands refuses a valid source", d):
        return
    got = [(f["name"], [(p["name"], p["type"], p["default"], p.get("ui_hint")) for p in f["params"]], f["return_type"]) for f in r.json()["commands"]]
    ctx.ev("param", sum(len(w[1]) for w in want))
    ctx.check(got == want and all(type(a[2]) is type(b[2]) for x, y in zip(got, want) for a, b in zip(x[1], y[1])), "commands", "the commands listed are not those of the source", d)
    ctx.check({f["name"]: f.get("meta_hint") for f in r.json()["commands"]} == metas, "metahint", "the @meta hints listed are not those of the commands", dict(d, want=metas))
    # the same commands are those of the module
    r = c.post("/dsl/parse", json={"source": src})
    d["answer"] = r.text[:500]
    ctx.ev("parse")
    if ctx.check(r.status_code == 200, "parse:status", "/dsl/parse refuses a valid source", d):
        from yapcad.dsl.lexer import tokenize
        from yapcad.dsl.parser import parse
        tree = parse(tokenize(src), source=src)
        n = [0]
        def cmp(o, j, path):
            if o is None or isinstance(o, (str, bool, int, float)):
                return o == j and type(o) is type(j)
            if isinstance(o, Enum):
                return j == o.name
            if isinstance(o, (list, tuple)):
                return isinstance(j, list) and len(o) == len(j) and all(cmp(a, b, path) for a, b in zip(o, j))
            if isinstance(o, dict):
                return isinstance(j, dict) and {str(k) for k in o} == set(j) and all(cmp(v, j[str(k)], path) for k, v in o.items())
            if is_dataclass(o):
                n[0] += 1
                if not isinstance(j, dict) or j.get("_type") != type(o).__name__:
                    return False
                for f in dfields(o):
                    v = getattr(o, f.name)
                    if f.name == "span":
                        s = j.get("span")
                        if v is None:
                            continue
                        if not (s and s["start"]["line"] == v.start.line and s["start"]["column"] == v.start.column and s["end"]["line"] == v.end.line and s["end"]["column"] == v.end.column and s["start"]["offset"] == v.start.offset and s["end"]["offset"] == v.end.offset):
                            return False
                    elif f.name not in j or not cmp(v, j[f.name], path + "." + f.name):
                        return False
                return True
            return True
        ctx.check(cmp(tree, r.json()["ast"], ""), "ast", "the syntax tree answered is not the parser's", d)
        ctx.ev("node", n[0])
    bad = rng.choice([src[:-4], src + " command", "module", "%%%", src.replace("command", "comand", 1)])
    for ep in ("commands", "parse"):
        r = c.post("/dsl/" + ep, json={"source": bad})
        ctx.ev("refused")
        ctx.check(r.status_code == 400 and r.json().get("detail"), "parse:bad", "source that does not parse is not answered 400 with the error", {"ep": ep, "source": bad[-100:], "status": r.status_code})


def shape(rng):
    k = rng.randrange(5)
    u = lambda: rng.uniform(1, 8)
    if k == 0:
        s = GU.prism(u(), u(), u())
    elif k == 1:
        s = GU.sphere(u(), depth=rng.choice([1, 2]))
    elif k == 2:
        s = GU.conic(u(), u(), u())
    elif k == 3:
        s = GU.tube(outer_diameter=8.0, wall_thickness=rng.uniform(0.5, 2), length=u())
    else:
        s = GU.prism(u(), u(), u())
    return G3.translatesolid(s, [rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-9, 9), 1.0])


def g_tess(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    ents = [shape(rng) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.3:
        ents.append(shape(rng)[1][0])          # a lone surface
    if rng.random() < 0.2:
        from yapcad.geom import line, point
        ents.insert(0, [line(point(0, 0), point(3, 4)), line(point(3, 4), point(0, 4))])
    doc = GJ.geometry_to_json(ents)
    ctx.case(repr([np.array(mesh3.tris(e)).sum() for e in ents if G3.issolid(e)]))
    r = c.post("/tessellate", json={"geometry": json.loads(json.dumps(doc))})
    ctx.ev("tess")
    d = {"n": len(ents), "status": r.status_code, "answer": r.text[:300]}
    if not ctx.check(r.status_code == 200, "tess:status", "/tessellate refuses a valid document", d):
        return
    m = r.json()
    V, N, I = m["vertices"], m["normals"], m["indices"]
    if not ctx.check(len(V) % 3 == 0 and len(N) == len(V) and len(I) % 3 == 0 and all(0 <= i < len(V) // 3 for i in I), "tess:shape", "the mesh answered is not well formed", d):
        return
    P = np.array(V).reshape(-1, 3)
    T = P[np.array(I).reshape(-1, 3)]
    want = np.concatenate([np.array(mesh3.tris(e)).reshape(-1, 3, 3) for e in ents if G3.issolid(e) or G3.issurface(e)])
    ctx.ev("tess:tri", len(want))
    key = lambda A: sorted(map(tuple, np.round(np.asarray(A).reshape(-1, 9), 6).tolist()))
    ctx.check(len(T) == len(want) and np.allclose(key(T), key(want), atol=1e-5), "tess:tri", "the triangles answered are not those of the solids and surfaces, once each", dict(d, got=len(T), want=len(want)))
    nn = np.array(N).reshape(-1, 3)
    wn = np.array([n[:3] for e in ents if G3.issolid(e) or G3.issurface(e) for s in (e[1] if G3.issolid(e) else [e]) for n in s[2]])
    ctx.check(len(nn) == len(wn) and np.allclose(sorted(map(tuple, np.round(np.hstack([P, nn]), 6).tolist())), sorted(map(tuple, np.round(np.hstack([np.array([v[:3] for e in ents if G3.issolid(e) or G3.issurface(e) for s in (e[1] if G3.issolid(e) else [e]) for v in s[1]]), wn]), 6).tolist())), atol=1e-5), "tess:normals", "the normals answered are not those of the vertices", d)
    for bad in ({}, {"geometry": {}}, {"geometry": {"schema": "nope", "entities": []}}):
        r = c.post("/tessellate", json=bad)
        ctx.ev("refused")
        ctx.check(r.status_code in (400, 422), "tess:bad", "an unreadable document is not refused", {"bad": str(bad)[:100], "status": r.status_code})


def g_boolean(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    a = [rng.uniform(2, 8) for _ in range(3)]
    b = [rng.uniform(2, 8) for _ in range(3)]
    off = [rng.uniform(-1, 1) * (x + y) / 2 * 0.8 for x, y in zip(a, b)]
    A = GU.prism(*a)
    B = G3.translatesolid(GU.prism(*b), [*off, 1.0])
    ov = 1.0
    for x, y, o in zip(a, b, off):
        ov *= max(0.0, min(x / 2, o + y / 2) - max(-x / 2, o - y / 2))
    va, vb = a[0] * a[1] * a[2], b[0] * b[1] * b[2]
    op = rng.choice(["union", "difference", "intersection"])
    want = {"union": va + vb - ov, "difference": va - ov, "intersection": ov}[op]
    if want < 0.05 or ov < 0.05:
        return
    ctx.case((tuple(a), tuple(b), tuple(off), op))
    body = {"operation": op, "a": GJ.geometry_to_json([A]), "b": GJ.geometry_to_json([B]), "engine": "trimesh"}
    if rng.random() < 0.3:
        body["backend"] = "manifold"
    if rng.random() < 0.3:
        body["stitch"] = True
    r = c.post("/boolean", json=json.loads(json.dumps(body)))
    ctx.ev("boolean")
    d = {"a": a, "b": b, "off": off, "op": op, "status": r.status_code, "answer": r.text[:200]}
    if ctx.check(r.status_code == 200, "bool:status", "a boolean of two boxes is refused", d):
        s = [e for e in GJ.geometry_from_json(r.json()["geometry"]) if G3.issolid(e)]
        v = mesh3.volume(np.array(mesh3.tris(s[0]))) if len(s) == 1 else None
        ctx.check(v is not None and abs(v - want) < 1e-4 * (1 + want), "bool:volume", "the boolean answered does not have the right volume", dict(d, got=v, want=want))
    empty = GJ.geometry_to_json([A[1][0]])
    for change, codes in (({"engine": "magic"}, (400,)), ({"a": empty}, (400,)), ({"b": empty}, (400,)), ({"operation": "xor"}, (422,)), ({"a": {}}, (400, 422))):
        r = c.post("/boolean", json=json.loads(json.dumps(dict(body, **change))))
        ctx.ev("refused")
        ctx.check(r.status_code in codes, "bool:bad", "a bad boolean request is not refused", {"change": str(change)[:60], "status": r.status_code})


def strip(j):
    """an eval answer as a comparable value: ids, times and provenance removed"""
    if not j:
        return j
    g = j.get("geometry")
    m = None
    if g:
        m = [np.round(np.array(mesh3.tris(e)), 9).tolist() for e in GJ.geometry_from_json(g) if G3.issolid(e) or G3.issurface(e)]
        m.append([[len(s[1]) for s in e[1]] for e in GJ.geometry_from_json(g) if G3.issolid(e)])
    return (j.get("success"), m, j.get("assembly_snapshot"), j.get("error_message"), [x["message"] for x in j.get("require_failures") or []])


def g_concurrent(ctx, rng):
    reqs = [request(rng) for _ in range(10)]
    # solids that are built through the shared vertex bookkeeping
    reqs += [("SPH", {"r": round(rng.uniform(1, 9), 3)}, "solid", None) for _ in range(3)] + [("CYL", {"r": round(rng.uniform(1, 9), 3), "h": 2.0}, "solid", None) for _ in range(2)]
    rng.shuffle(reqs)
    ctx.case(repr(reqs))
    c = TestClient(app, raise_server_exceptions=False)
    want = [strip(c.post("/dsl/eval", json={"source": SRC, "command": r[0], "parameters": r[1]}).json()) for r in reqs]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    got = [None] * len(reqs)
    import httpx
    async def run():
        async with httpx.AsyncClient(transport=httpx.ASGITransport(app=app), base_url="http://t") as ac:
            async def one(i):
                r = await ac.post("/dsl/eval", json={"source": SRC, "command": reqs[i][0], "parameters": reqs[i][1]}, timeout=60)
                got[i] = (r.status_code, r.json() if r.status_code == 200 else r.text)
            async with anyio.create_task_group() as tg:
                for i in range(len(reqs)):
                    tg.start_soon(one, i)
    try:
        anyio.run(run)
    finally:
        sys.setswitchinterval(old)
    ctx.ev("concurrent", len(reqs))
    for r, w, g in zip(reqs, want, got):
        s = strip(g[1]) if g and g[0] == 200 else None
        ctx.check(s == w, "concurrent", "a request evaluated next to others is answered differently than alone", {"request": r, "status": g and g[0], "answer": str(g and g[1])[:300]})


def g_ws(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    plan = []
    for k in range(rng.randint(4, 9)):
        q = rng.random()
        if q < 0.5:
            plan.append(("eval",) + request(rng))
        elif q < 0.65:
            plan.append(("bad", rng.choice(["{nope", "", "[1, 2]", "3", '"text"', '{"type": "bogus"}', "{}", '{"type": null}', "null"])))
        elif q < 0.82:
            plan.append(("cancelled",))
        else:
            plan.append(("superseded",) + request(rng))
    ctx.case(repr(plan))
    ctx.ev("ws")
    d = {"plan": plan}
    gates = {}
    real = DR.compile_and_run

    def gated(source, command_name, parameters, **k):
        """an evaluation of GATE waits until the monitor lets it go"""
        if command_name.startswith("GATE"):
            started, go = gates[command_name]
            started.set()
            go.wait(20)
            return real(source=source, command_name="BOX", parameters={"w": 1.0}, **k)
        return real(source=source, command_name=command_name, parameters=parameters, **k)

    DR.compile_and_run = gated
    log = []
    try:
        with c.websocket_connect("/ws/dsl/eval") as ws:
            def ev(rid, cmd, par):
                m = {"type": "eval", "request_id": rid, "source": SRC, "command": cmd, "parameters": par}
                if rng.random() < 0.3:
                    m["format"] = "json"
                ws.send_text(json.dumps(m))
            def sync():
                """everything sent so far has been handled: one marked error comes back"""
                mark = "sync%d" % rng.randrange(10**9)
                ws.send_text(json.dumps({"type": mark}))
                while True:
                    m = ws.receive_json()
                    if m.get("type") == "error" and mark in str(m.get("error_message")):
                        return
                    log.append(m)
            def result(rid):
                while True:
                    m = ws.receive_json()
                    log.append(m)
                    if m.get("type") == "result" and m.get("request_id") == rid:
                        return m
            for i, p in enumerate(plan):
                rid = "r%d" % i
                if p[0] == "eval":
                    ev(rid, p[1], p[2])
                    m = result(rid)
                    ctx.ev("ws:result")
                    dd = dict(d, step=i, answer=str(m)[:500])
                    judge_eval(ctx, p[1], p[2], p[3], p[4], 200, m, dd, "ws:")
                    ctx.check(isinstance(m.get("elapsed_ms"), float) and m["elapsed_ms"] >= 0, "ws:elapsed", "a result does not tell the time it took", dd)
                elif p[0] == "bad":
                    n = len(log)
                    ws.send_text(p[1])
                    sync()
                    ctx.ev("ws:error")
                    ctx.check(len(log) == n + 1 and log[-1].get("type") == "error" and log[-1].get("error_message"), "ws:error", "a bad message is not answered with one error", dict(d, step=i, log=str(log[n:])[:300]))
                elif p[0] == "cancelled":
                    name = "GATE%d" % i
                    gates[name] = (threading.Event(), threading.Event())
                    ev(rid, name, {})
                    gates[name][0].wait(20)
                    if rng.random() < 0.4:      # a cancel for something else does nothing
                        ws.send_text(json.dumps({"type": "cancel", "request_id": "other"}))
                        sync()
                        gates[name][1].set()
                        result(rid)
                        ctx.ev("ws:result")
                        continue
                    ws.send_text(json.dumps({"type": "cancel", "request_id": rid}))
                    sync()
                    gates[name][1].set()
                    ctx.ev("ws:cancelled")
                else:
                    name = "GATE%d" % i
                    gates[name] = (threading.Event(), threading.Event())
                    ev(rid, name, {})
                    gates[name][0].wait(20)
                    ev(rid + "b", p[1], p[2])
                    result(rid + "b")
                    gates[name][1].set()
                    ctx.ev("ws:superseded")
            time.sleep(0.05)
            sync()
    finally:
        DR.compile_and_run = real
        for a, b in gates.values():
            b.set()
    seen = [m["request_id"] for m in log if m.get("type") == "result"]
    d["log"] = [(m.get("type"), m.get("request_id")) for m in log]
    ctx.check(len(seen) == len(set(seen)), "ws:twice", "an eval got more than one result", d)
    for i, p in enumerate(plan):
        rid = "r%d" % i
        if p[0] == "superseded":
            ctx.check(rid not in seen, "ws:superseded", "a superseded eval still got a result", d)
            ctx.check(rid + "b" in seen, "ws:missing", "an eval got no result", d)
    nbad = sum(p[0] == "bad" for p in plan)
    ctx.check(sum(m.get("type") == "error" for m in log) == nbad, "ws:errors", "not one error for every bad message", d)
    want = {("r%d" % i) for i, p in enumerate(plan) if p[0] == "eval"}
    ctx.check(want <= set(seen), "ws:missing", "an eval got no result", d)
    # cancelled ones: whatever is in the log with their id must come from the un-cancelled branch
    ctx.check(set(seen) <= want | {"r%d" % i for i, p in enumerate(plan) if p[0] == "cancelled"} | {"r%db" % i for i, p in enumerate(plan) if p[0] == "superseded"}, "ws:stray", "a result for a request that was not made", d)


def g_cancel(ctx, rng):
    """cancelled evaluations get no result, and the connection keeps answering"""
    c = TestClient(app, raise_server_exceptions=False)
    real = DR.compile_and_run
    started, go = threading.Event(), threading.Event()
    done = threading.Event()
    def gated(source, command_name, parameters, **k):
        if command_name == "GATE":
            started.set()
            go.wait(20)
            try:
                return real(source=source, command_name="BOX", parameters={"w": 1.0}, **k)
            finally:
                done.set()
        return real(source=source, command_name=command_name, parameters=parameters, **k)
    DR.compile_and_run = gated
    log = []
    rid = "c%d" % rng.randrange(10**6)
    ctx.case(rid)
    try:
        with c.websocket_connect("/ws/dsl/eval") as ws:
            ws.send_text(json.dumps({"type": "eval", "request_id": rid, "source": SRC, "command": "GATE"}))
            started.wait(20)
            ws.send_text(json.dumps({"type": "cancel", "request_id": rid}))
            ws.send_text(json.dumps({"type": "mark1"}))
            log.append(ws.receive_json())       # answered while the evaluation still runs
            go.set()
            done.wait(20)
            time.sleep(0.05)
            par = {"x": 2.0}
            ws.send_text(json.dumps({"type": "eval", "request_id": "after", "source": SRC, "command": "TEXT", "parameters": {"s": "ok"}}))
            log.append(ws.receive_json())
            ws.send_text(json.dumps({"type": "mark2"}))
            log.append(ws.receive_json())
    finally:
        DR.compile_and_run = real
        go.set()
    ctx.ev("ws:cancelled")
    ctx.check([m.get("type") for m in log] == ["error", "result", "error"] and log[1].get("request_id") == "after" and log[1].get("assembly_snapshot") == "ok", "cancel", "after a cancel the connection does not go on with exactly the later answers", {"log": str(log)[:600]})


def g_timeout(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    real, reale = DR.compile_and_run, RD.eval_dsl
    hold = threading.Event()
    ended = threading.Event()
    def slow(**k):
        hold.wait(15)
        ended.set()
        return real(**k)
    limits = []
    async def short(**k):
        limits.append(k.get("timeout_s"))
        k["timeout_s"] = 0.15
        return await reale(**k)
    body = {"source": SRC, "command": "SCALE", "parameters": {"x": 1.0}}
    ep = rng.choice(["eval", "ui_eval", "assembly_eval"])
    ctx.case((ep, rng.random()))
    DR.compile_and_run, RD.eval_dsl = slow, short
    try:
        r = c.post("/dsl/" + ep, json=body)
        ctx.ev("timeout")
        early = not ended.is_set()
        ctx.check(r.status_code == 408 and early, "timeout", "an evaluation over its time limit is not answered 408 when the limit is over", {"ep": ep, "status": r.status_code, "before the evaluation ended": early, "answer": r.text[:200]})
        ctx.check(limits == [{"eval": 30.0, "ui_eval": 10.0, "assembly_eval": 120.0}[ep]], "limit", "the time limit of the endpoint is not the documented one", {"ep": ep, "limits": limits})
    finally:
        hold.set()
        DR.compile_and_run, RD.eval_dsl = real, reale
    # the service is not blocked by it
    r = c.post("/dsl/ui_eval", json=body)
    ctx.check(r.status_code == 200 and r.json()["values"] == [2.0], "after", "after a timeout the service does not answer", {"status": r.status_code})


def g_system(ctx, rng):
    c = TestClient(app, raise_server_exceptions=False)
    ctx.case(rng.random())
    ctx.ev("system")
    ctx.check(c.get("/health").json() == {"status": "ok"}, "health", "the service is not healthy", {})
    j = c.get("/info").json()
    import yapcad
    from yapcad.boolean import ENGINE_REGISTRY
    ctx.check(j["yapcad_version"] == yapcad.__version__ and j["boolean_engines"]["registered"] == sorted(ENGINE_REGISTRY), "info", "the service's information is not the library's", {"info": j})
    from yapcad.dsl.introspection import get_api_reference
    j = c.get("/builtins").json()
    ctx.check(j["api"] == json.loads(json.dumps(get_api_reference())), "builtins", "the builtins listed are not the library's", {})
    r = c.get("/health", headers={"Origin": "http://localhost:5173"})
    ctx.check(r.headers.get("access-control-allow-origin") in ("*", "http://localhost:5173"), "cors", "the viewer's origin is not allowed", {})


GROUPS = {"eval": (g_eval, 240, 4000), "commands": (g_commands, 120, 3000), "tess": (g_tess, 100, 1500), "boolean": (g_boolean, 90, 1500), "concurrent": (g_concurrent, 24, 400), "ws": (g_ws, 56, 800), "cancel": (g_cancel, 16, 200), "timeout": (g_timeout, 8, 60), "system": (g_system, 4, 8)}

if __name__ == "__main__":
    vf.main(globals())
