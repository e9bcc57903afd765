import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, io, json, math, random, re
import gendsl as G
import vf

PROP = "C21"
LEVEL = "exploration"
META = dict(
    title="DSL programs mean what the language says: results, effects, failures",
    statement="Running a type-correct command gives exactly what the language defines: operators with documented precedence and typing (/ is real, // and % floor, ** powers), left-to-right evaluation, short-circuit and/or and ternary, lexical block scope with assignment to the variable in scope, fresh loop scopes, for over lists and ranges in order, comprehensions as nested filtered loops, first true branch of if/elif/else, helper commands with positional, named and default arguments (defaults seeing earlier parameters) returning their first emit, and nothing after emit. Everything print shows, and its order, is part of that. The emitted value has the declared type (int widened to float, also in lists). A false require or assert ends the run with success False and its message, also from a helper; division by zero, a bad index, a domain error or recursion past the limit end it with success False and an error, never an exception or a partial result. Parameter values of the wrong type, missing ones and unknown commands are refused. Re-running, or running through an identity transform, gives the same.",
    over=["inputs"], q="for all type-correct programs, parameters and recursion limits",
    why="The interpreter turns every DSL design into numbers and shapes; a scoping, ordering or short-circuit slip shows only for particular nestings, and the tests check a few snippets each.",
    files=["src/yapcad/dsl/runtime/interpreter.py", "src/yapcad/dsl/runtime/context.py", "src/yapcad/dsl/runtime/values.py", "src/yapcad/dsl/runtime/builtins.py", "src/yapcad/dsl/checker.py", "src/yapcad/dsl/transforms/base.py"],
    mech=[("Interpreter", "src/yapcad/dsl/runtime/interpreter.py"), ("ExecutionContext", "src/yapcad/dsl/runtime/context.py"), ("TreeTransform", "src/yapcad/dsl/transforms/base.py")],
    technique="random well-typed programs run side by side with an independent reference evaluator; monitors compare the emitted value and type, the captured print trace, require failures and errors",
    note="Exploration of the core language with values below 1e11 (int/float rounding differences cannot show). Integer and real representation inside expressions is not observed, only at declared boundaries. Vector arithmetic and method calls are out of scope (see DESIGN.md).",
)
RULE = "random typed programs with parameters, recursion limits and bad parameters; distinct by source and parameters"
REQUIRE = {"program": 600, "outcome:ok": 500, "outcome:error": 15, "outcome:require": 25, "printed": 600, "helper": 300, "default": 100, "named": 100, "comprehension": 300, "iteration": 600,
           "assign-outer": 60, "recursion-limit": 60, "bad-parameter": 200, "else": 40, "transform": 100}
WALL_QUICK = 250


def init():
    global D, I, IT
    from yapcad import dsl as D
    from yapcad.dsl.runtime import interpreter as I
    from yapcad.dsl import transforms as IT
    sys.setrecursionlimit(20000)


NUM = re.compile(r"(-?(?<![\w.])\d+(?:\.\d*)?(?:e[-+]?\d+)?)")


def toks(line):
    out = []
    for p in NUM.split(line):
        try:
            out.append(float(p))
        except ValueError:
            out.append(p)
    return out


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def close_line(a, b):
    if a == b:
        return True
    x, y = toks(a), toks(b)
    return len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))


def typed(v, t):
    if isinstance(t, tuple):
        return isinstance(v, list) and all(typed(x, t[1]) for x in v)
    return {"int": type(v) is int, "float": type(v) is float, "bool": type(v) is bool, "string": type(v) is str}[t]


def run(src, name, raw, how, limit=None):
    """(result, printed lines)"""
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        if how == "compile":
            r = D.compile_and_run(src, name, raw, recursion_limit=limit) if limit is not None else D.compile_and_run(src, name, raw)
        else:
            m = D.parse(D.tokenize(src), source=src)
            c = D.check(m)
            if c.has_errors:
                return None, [str(d.message) for d in c.diagnostics]
            tr = [IT.IdentityTransform().transform] if how == "transform" else None
            r = I.Interpreter(transforms=tr, recursion_limit=limit).execute(m, name, raw, src)
            if how == "twice":
                b.seek(0)
                b.truncate()
                r = I.Interpreter(recursion_limit=limit).execute(m, name, raw, src)
    out = b.getvalue()
    return r, out


def compare(ctx, src, raw, want, ref_out, r, out, cmd, kind="program"):
    data = {"source": src, "params": repr(raw), "expected": repr(want)[:500], "printed": out[-500:] if isinstance(out, str) else repr(out)[:500]}
    if r is None:
        ctx.viol("rejected", "a well-typed program is rejected by the type checker", data)
        return
    data["got"] = repr((r.success, r.geometry if r.success else r.error_message))[:600]
    k = want[0]
    lines = [l for l in out.split("\n")]
    # prints (strings may hold line breaks): compare as one text, line by line
    ref = "".join(l + "\n" for l in ref_out).split("\n")
    if not (len(lines) == len(ref) and all(close_line(a, b) for a, b in zip(lines, ref))):
        data["expected_print"] = "\n".join(ref)[-800:]
        ctx.viol("print", "what the program prints (its effects and their order) is wrong", data)
        return
    ctx.ev("printed", len(ref_out))
    if k == "ok":
        if not r.success:
            ctx.viol("failed", "a correct run fails", data)
        elif not close(r.geometry, want[1]) and not close(num(r.geometry), num(want[1])):
            ctx.viol("value", "wrong result", data)
        else:
            ctx.check(typed(r.geometry, cmd["ret"]), "type", "the result does not have the declared type", data)
            ctx.check(not r.require_failures and r.error_message is None, "ok-with-errors", "a successful run reports failures", data)
    else:
        ctx.check(not r.success and r.geometry is None, "not-refused:" + k, "a failing run reports success or a result", data)
        if k == "require":
            ctx.check(len(r.require_failures) == 1 and (want[1] is None or r.require_failures[0].message == want[1]), "require-message", "require failure lost or with another message", data)
            ctx.check(bool(r.error_message) and (want[1] is None or want[1] in r.error_message), "require-error", "error message does not name the failed require", data)
        elif k == "error":
            ctx.check(not r.require_failures and bool(r.error_message) and isinstance(r.error_message, str), "error-message", "failing run without an error message", data)


def num(v):
    if isinstance(v, list):
        return [num(x) for x in v]
    return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v


def program(ctx, rng):
    g = G.Gen(rng, size=rng.choice([.6, 1, 1, 2]), errors=rng.choice([0, .03, .15]))
    cmds = g.program()
    raw = g.args(cmds[-1])
    ref = G.Ref(cmds)
    try:
        want = ref.run("MAIN", raw)
    except (G.Skip, RecursionError):
        ctx.ev("skipped")
        return
    src = G.Text(rng, rng.choice(["min", "full", "mix"]), rng.choice([2, 4])).program(cmds)
    how = rng.choice(["compile", "compile", "execute", "twice", "transform"])
    r, out = run(src, "MAIN", dict(raw), how)
    ctx.ev("program")
    ctx.ev("outcome:" + want[0])
    if how == "transform":
        ctx.ev("transform")
    for k, n in ref.stats.items():
        ctx.ev(k, n)
    ctx.case((src, repr(raw)))
    compare(ctx, src, raw, want, ref.out, r, out, cmds[-1])


def recursion(ctx, rng):
    """The recursion limit counts nested command calls, and is exact."""
    lim = rng.choice([1, 2, 5, 17, 60, 100, 100, 250])
    kind = rng.randrange(4)
    if kind == 0:
        src = "module m\ncommand f(n: int) -> int:\n    if n <= 0:\n        emit 0\n    emit 1 + f(n - 1)\n\ncommand MAIN(n: int) -> int:\n    emit f(n)\n"
        depth = lambda n: n + 1
        val = lambda n: n
    elif kind == 1:
        src = "module m\ncommand a(n: int) -> int:\n    emit 0 if n == 0 else b(n - 1) + 1\n\ncommand b(n: int) -> int:\n    emit 0 if n == 0 else a(n - 1) + 1\n\ncommand MAIN(n: int) -> int:\n    for i in range(3):\n        x: int = a(n)\n    emit a(n)\n"
        depth = lambda n: n + 1
        val = lambda n: n
    elif kind == 2:
        src = "module m\ncommand f(n: int) -> int:\n    x: list<int> = [f(n - 1) for k in [0] if n > 0]\n    emit len(x) + sum2(x)\n\ncommand sum2(x: list<int>) -> int:\n    t: int = 0\n    for v in x:\n        t = t + v\n    emit t\n\ncommand MAIN(n: int) -> int:\n    emit f(n)\n"
        depth = lambda n: n + 2
        val = lambda n: n
    else:
        src = "module m\ncommand MAIN(n: int) -> int:\n    emit 5 if n <= 0 else MAIN(n - 1)\n"
        depth = lambda n: n
        val = lambda n: 5
    n = max(0, lim + rng.choice([-9, -2, -1, 0, 0, 1, 2, 30]))
    use_default = lim == 100 and rng.random() < .5
    if not use_default and rng.random() < .2:
        os.environ["YAPCAD_DSL_RECURSION_LIMIT"] = str(lim)
        try:
            r, _ = run(src, "MAIN", {"n": n}, "compile")
        finally:
            del os.environ["YAPCAD_DSL_RECURSION_LIMIT"]
    else:
        r, _ = run(src, "MAIN", {"n": n}, rng.choice(["compile", "execute"]), None if use_default else lim)
    ctx.ev("recursion-limit")
    ctx.case((kind, lim, n, use_default))
    data = {"source": src, "n": n, "limit": lim, "got": repr((r.success, r.geometry, r.error_message))[:300]}
    if depth(n) <= lim:
        ctx.check(r.success and r.geometry == val(n), "recursion:allowed", "recursion within the limit fails", data)
    else:
        ctx.check(not r.success and r.geometry is None and "recursion" in (r.error_message or "").lower(), "recursion:limit", "recursion past the limit is not stopped with an error", data)


def size_limit(ctx, rng):
    """Comprehension limits: at most 100000 results and four clauses."""
    n = rng.choice([40, 46, 47, 50])
    k = rng.choice([2, 3, 4, 5])
    if k == 5:
        src = "module m\ncommand MAIN() -> int:\n    emit len([1 for a in [1] for b in [1] for c in [1] for d in [1] for e in [1]])\n"
        r, _ = run(src, "MAIN", {}, "compile")
        ctx.check(not r.success and r.geometry is None, "limit:clauses", "five comprehension clauses accepted", {"source": src})
        return
    src = f"module m\ncommand MAIN() -> int:\n    emit len([1 for a in range({n}) for b in range({n})" + (f" for c in range({n})" if k == 3 else "") + "])\n"
    if k == 4:
        q = rng.choice([99999, 100000, 100001])
        src, tot = f"module m\ncommand MAIN() -> int:\n    emit len([k for k in range({q})])\n", q
    else:
        tot = n ** k
    r, _ = run(src, "MAIN", {}, "compile")
    ctx.ev("size-limit")
    ctx.case(src)
    if tot <= 100000:
        ctx.check(r.success and r.geometry == tot, "limit:allowed", "comprehension within the size limit fails", {"source": src, "got": r.error_message})
    else:
        ctx.check(not r.success and r.geometry is None and bool(r.error_message), "limit:size", "comprehension past the size limit is not stopped", {"source": src})


def good(rng, t):
    """(raw value, value the program must see)"""
    if isinstance(t, tuple):
        xs = [good(rng, t[1]) for _ in range(rng.randrange(4))]
        return (tuple if rng.random() < .2 else list)(x[0] for x in xs), [x[1] for x in xs]
    if t == "int":
        v = rng.randrange(-9, 99)
        return (float(v) if rng.random() < .2 else v), v
    if t == "float":
        v = rng.choice([rng.randrange(-9, 99), rng.uniform(-9, 9)])
        return v, float(v)
    if t == "bool":
        v = rng.random() < .5
        return v, v
    v = rng.choice(["", "a b", "\u00e9"])
    return v, v


def bad(rng, t):
    if isinstance(t, tuple):
        if rng.random() < .5:
            return rng.choice([3, None, "abc", {"a": 1}, True])
        return [good(rng, t[1])[0], bad(rng, t[1])]
    return rng.choice({"int": [2.5, "3", None, True, [1]], "float": ["1.0", None, False, [1.0]], "bool": [1, 0, "true", None, []], "string": [1, 2.5, None, True, ["a"]]}[t])


def parameters(ctx, rng):
    g = G.Gen(rng)
    ts = [g.rtype() for _ in range(rng.choice([1, 2, 3, 4]))]
    nd = rng.randrange(len(ts) + 1)
    ps, dv = [], {}
    for i, t in enumerate(ts):
        d = None
        if i >= nd:
            d = g.lit(t)
            dv[f"a{i}"] = d
        ps.append((f"a{i}", t, d))
    j = rng.randrange(len(ts))
    cmds = [dict(name="MAIN", params=ps, ret=ts[j], body=[("expr", ("call", "print", [("lit", "string", "ran")], [])), ("emit", ("var", f"a{j}"))])]
    src = G.Text().program(cmds)
    raw, seen = {}, {}
    for n, t, d in ps:
        if d is not None and rng.random() < .5:
            seen[n] = G.Ref(cmds).e(d, [{}])
            continue
        raw[n], seen[n] = good(rng, t)
    mode = rng.choice(["good", "bad", "bad", "missing", "command", "nothing"])
    data = {"source": src, "params": repr(raw), "mode": mode}
    if mode == "nothing":
        src2 = "module m\ncommand MAIN() -> int:\n    if 1 > 2:\n        emit 1\n"
        r, out = run(src2, "MAIN", {}, "compile")
        ctx.check(not r.success and r.geometry is None and bool(r.error_message), "no-emit", "a command that emits nothing succeeds", {"source": src2})
        return
    if mode == "bad":
        n, t, _ = rng.choice(ps)
        raw[n] = bad(rng, t)
    elif mode == "missing":
        req = [p[0] for p in ps if p[2] is None]
        if not req:
            return
        raw.pop(rng.choice(req))
    before = repr(raw)
    name = "MAIN2" if mode == "command" else "MAIN"
    try:
        r, out = run(src, name, raw, rng.choice(["compile", "execute"]))
    except Exception as x:
        ctx.viol("parameter:raises", "bad parameters raise instead of failing the run", dict(data, error=repr(x)[:300], params=repr(raw)))
        return
    ctx.case((src, repr(raw), mode))
    data.update(params=repr(raw), got=repr((r.success, r.geometry, r.error_message))[:300] if r else repr(out))
    if r is None:
        ctx.viol("rejected", "a well-typed program is rejected by the type checker", data)
        return
    if mode == "good":
        ctx.ev("good-parameter")
        v = seen[f"a{j}"]
        ctx.check(r.success and close(num(r.geometry), num(v)) and typed(r.geometry, ts[j]), "parameter:value", "parameter value altered or refused", dict(data, expected=repr(v)))
        p = r.provenance.parameters if r.provenance else None
        ctx.check(p is not None and set(p) == set(raw) and all(close(num(list(p[k]) if isinstance(p[k], tuple) else p[k]), num(list(raw[k]) if isinstance(raw[k], tuple) else raw[k])) for k in raw), "parameter:provenance", "provenance does not hold the parameters", dict(data, provenance=repr(p)))
    else:
        ctx.ev("bad-parameter")
        ctx.check(not r.success and r.geometry is None and bool(r.error_message) and out == "", "parameter:" + mode, "wrong parameters or command accepted", data)
    ctx.check(repr(raw) == before, "parameter:mutated", "the caller's parameters were changed", data)


GROUPS = {"program": (program, 3500, 60000), "recursion": (recursion, 150, 1500), "size_limit": (size_limit, 16, 60), "parameters": (parameters, 900, 12000)}

if __name__ == "__main__":
    vf.main(globals())
