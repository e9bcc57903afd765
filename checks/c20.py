import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import contextlib, copy, io, random, re
import gendsl as G
import vf

PROP = "C20"
LEVEL = "exploration"
META = dict(
    title="DSL type checker: accepts the well-typed, rejects and locates every type error",
    statement="The type checker accepts every program that follows the language's typing rules (int where float is wanted, common element types, named and default arguments, lexical scope), and rejects every program that breaks one: a value of the wrong type declared, assigned, emitted, passed, defaulted, indexed or iterated; a condition, filter or require that is not bool, or a message that is not a string; operators on wrong types; lists or ternaries of incompatible types; unknown or out-of-scope variables, functions, types and named arguments; missing, duplicate or surplus arguments; names declared twice. Each rejection carries an error located on the offending statement, and a rejected program is never started. What it accepts does not go wrong: an accepted program run with parameters of the declared types never stops on a type confusion, an undefined name, a missing argument or an unknown function, only on value errors (division by zero, index, domain, recursion or size limits, require). The verdict and diagnostics depend on the source alone.",
    over=["inputs"], q="for all programs of the core language",
    why="Static checking is what lets a design be trusted before minutes of geometry work; an unsound rule shows only in particular combinations of constructs, and an over-strict one blocks valid designs.",
    files=["src/yapcad/dsl/checker.py", "src/yapcad/dsl/types.py", "src/yapcad/dsl/symbols.py", "src/yapcad/dsl/runtime/interpreter.py"],
    mech=[("TypeChecker", "src/yapcad/dsl/checker.py"), ("Type.is_assignable_from, common_type", "src/yapcad/dsl/types.py"), ("SymbolTable", "src/yapcad/dsl/symbols.py")],
    technique="generated well-typed programs must be accepted, the same programs with one planted typing error rejected on its line, and randomly mutated programs that are accepted are executed under a monitor for type-like run-time errors",
    note="Exploration of the core language; geometry-valued built-ins are covered by C22. Known rules that are looser at run time (vector arithmetic, method calls) are outside the generated language.",
)
RULE = "random programs, planted typing errors of 40 kinds, random subtree swaps; distinct by source"
REQUIRE = {"accepted": 600, "planted": 1800, "swap:accepted": 250, "swap:rejected": 800}
WALL_QUICK = 250


def init():
    global D
    from yapcad import dsl as D
    sys.setrecursionlimit(20000)


def check(src):
    m = D.parse(D.tokenize(src), source=src)
    r = D.check(m)
    return r, [d for d in r.diagnostics if d.severity.name == "ERROR"]


def accept(ctx, rng):
    g = G.Gen(rng, size=rng.choice([1, 2]))
    cmds = g.program()
    src = G.Text(rng, rng.choice(["min", "mix"])).program(cmds)
    r, errs = check(src)
    ctx.ev("accepted")
    ctx.case(src)
    if errs or r.has_errors:
        ctx.viol("over-strict:" + errs[0].code, "a well-typed program is rejected", {"source": src, "error": errs[0].message})
    r2, e2 = check(src)
    key = lambda ds: [(d.code, d.message, d.span.start.offset) for d in ds]
    ctx.check(key(r.diagnostics) == key(r2.diagnostics), "unstable", "diagnostics differ between two checks of the same source", {"source": src})


SC = ["int", "float", "bool", "string"]


def fits(t, u):
    """A value of type u may stand where t is declared."""
    if isinstance(t, tuple) and isinstance(u, tuple):
        return fits(t[1], u[1])
    return t == u or (t == "float" and u == "int")


def incompatible(rng, t):
    for _ in range(100):
        u = rng.choice(SC + [("list", "int"), ("list", "float"), ("list", "bool"), ("list", "string"), ("list", ("list", "int"))])
        if not fits(t, u):
            return u
    raise AssertionError


class Wrong:
    """Plants one typing error; each kind returns a statement list or None."""

    def __init__(self, g, rng, ret):
        self.g, self.r, self.ret = g, rng, ret

    def ex(self, t, d=2):
        return self.g.e(t, d)

    def nonbool(self):
        return self.ex(self.r.choice(["int", "float", "string", ("list", "bool")]))

    def nonnum(self):
        return self.ex(self.r.choice(["bool", "string", ("list", "int")]))

    def wrap(self, e, t):
        """Hide expression e (claimed type t) inside a well-typed bigger statement."""
        r = self.r
        k = r.randrange(6)
        x = self.g.fresh("w")
        if k == 0:
            return [("decl", "typed", x, t, e)]
        if k == 1:
            return [("expr", ("call", "print", [("lit", "string", "w"), e], []))]
        if k == 2 and t in ("int", "float"):
            return [("if", [(("bin", "<", e, ("lit", "int", 3)), [("pass",)])], None)]
        if k == 3:
            return [("for", x, ("list", [e]), [("pass",)])]
        if k == 4:
            return [("decl", "let", x, ("list", t), ("comp", e, [(self.g.fresh("k"), ("call", "range", [("lit", "int", 2)], []), [])]))]
        return [("decl", "bare", x, t, e)]

    def plant(self, kind):
        r, g = self.r, self.g
        t = r.choice(SC + [("list", "int"), ("list", "float"), ("list", "string")])
        u = incompatible(r, t)
        x = g.fresh("w")
        if kind == "declare":
            return [("decl", r.choice(["typed", "lettyped"]), x, t, self.ex(u))]
        if kind == "narrow":
            # a float-valued expression of mixed operands where an int is wanted
            i, f = self.ex("int"), self.ex("float")
            k = r.randrange(5)
            if k == 0:
                return [("decl", "typed", x, ("list", "int"), ("list", [i, f] if r.random() < .6 else [i, self.ex("int"), f]))]
            if k == 1:
                e = ("tern", self.ex("bool"), i, f) if r.random() < .5 else ("tern", self.ex("bool"), f, i)
            elif k == 2:
                e = ("un", "-", f) if r.random() < .5 else ("bin", "/", i, self.ex("int"))
            else:
                e = ("bin", r.choice(["+", "-", "*", "/", "%", "**"]), *((i, f) if r.random() < .6 else (f, i)))
            vs = g.vars_of("int")
            if vs and r.random() < .3:
                return [("assign", r.choice(vs), e)]
            return [("decl", r.choice(["typed", "lettyped"]), x, "int", e)]
        if kind == "assign":
            vs = g.vars_of(t)
            return [("assign", r.choice(vs), self.ex(u))] if vs else None
        if kind == "assign-inner":
            vs = g.vars_of(t)
            return [("for", x, ("call", "range", [("lit", "int", 2)], []), [("if", [(self.ex("bool"), [("assign", r.choice(vs), self.ex(u))])], None)])] if vs else None
        if kind == "if":
            return [("if", [(self.nonbool(), [("pass",)])], None)]
        if kind == "elif":
            return [("if", [(self.ex("bool"), [("pass",)]), (self.nonbool(), [("pass",)])], [("pass",)])]
        if kind == "require":
            return [("require", r.choice(["require", "assert"]), self.nonbool(), None)]
        if kind == "message":
            return [("require", "require", self.ex("bool"), self.ex(r.choice(["int", "bool", "float"])))]
        if kind == "emit":
            return [("if", [(self.ex("bool"), [("emit", self.ex(incompatible(r, self.ret)))])], None)]
        if kind == "for":
            return [("for", x, self.ex(r.choice(["int", "float", "bool"])), [("pass",)])]
        if kind == "arith":
            a, b = self.ex(r.choice(["int", "float"])), self.nonnum()
            if r.random() < .5:
                a, b = b, a
            return self.wrap(("bin", r.choice(["+", "-", "*", "/", "//", "%", "**"]), a, b), "float")
        if kind == "string+":
            return self.wrap(("bin", r.choice("+-*"), self.ex("string"), self.ex("string")), "string")
        if kind == "compare":
            a, b = self.ex(r.choice(["int", "float"])), self.nonnum()
            if r.random() < .5:
                a, b = b, a
            if r.random() < .2:
                a = self.ex("string")
                b = self.ex("string")
            return self.wrap(("bin", r.choice(["<", ">", "<=", ">="]), a, b), "bool")
        if kind == "logic":
            a, b = self.ex("bool"), self.nonbool()
            if r.random() < .5:
                a, b = b, a
            return self.wrap(("bin", r.choice(["and", "or"]), a, b), "bool")
        if kind == "not":
            return self.wrap(("un", "not", self.nonbool()), "bool")
        if kind == "neg":
            return self.wrap(("un", "-", self.nonnum()), "float")
        if kind == "tern-cond":
            return self.wrap(("tern", self.nonbool(), self.ex(t), self.ex(t)), t)
        if kind == "tern-arms":
            u = incompatible(r, t)
            if fits(u, t):
                return None
            return self.wrap(("tern", self.ex("bool"), self.ex(t), self.ex(u)), t)
        if kind == "index-of":
            return self.wrap(("idx", ("var", v) if (v := next(iter(g.vars_of(r.choice(["int", "float", "bool"]))), None)) else ("lit", "int", 3), ("lit", "int", 0)), "int")
        if kind == "index-by":
            return self.wrap(("idx", g.nonempty(("list", "int"), 1), self.ex(r.choice(["float", "bool", "string"]))), "int")
        if kind == "list":
            a, b = r.choice([("int", "bool"), ("float", "string"), ("bool", "string"), ("string", "int"), ("int", ("list", "int"))])
            es = [self.ex(a), self.ex(a), self.ex(b)]
            return self.wrap(("list", es), ("list", a))
        if kind == "undefined":
            return self.wrap(("var", "nowhere"), t)
        if kind == "function":
            return self.wrap(("call", "no_such_function", [self.ex("int")], []), t)
        if kind == "scope-block":
            return [("if", [(self.ex("bool"), [("decl", "typed", x, "int", ("lit", "int", 1))])], None), ("expr", ("call", "print", [("lit", "string", "s"), ("var", x)], []))]
        if kind == "scope-loop":
            return [("for", x, ("call", "range", [("lit", "int", 2)], []), [("pass",)]), ("decl", "let", g.fresh("w"), "int", ("var", x))]
        if kind == "scope-comp":
            return [("decl", "let", g.fresh("w"), "int", ("bin", "+", ("call", "len", [("comp", ("var", x), [(x, ("call", "range", [("lit", "int", 2)], []), [])])], []), ("var", x)))]
        if kind == "before":
            return [("expr", ("call", "print", [("lit", "string", "s"), ("var", x)], [])), ("decl", "typed", x, "int", ("lit", "int", 1))]
        if kind == "self":
            return [("decl", r.choice(["typed", "let", "bare"]), x, "int", ("bin", "+", ("var", x), ("lit", "int", 1)))]
        if kind == "redeclare":
            n = r.choice(list(g.scopes[-1]) or [None])
            if n is None:
                return [("decl", "typed", x, "int", ("lit", "int", 1)), ("decl", "let", x, "int", ("lit", "int", 1))]
            return [("decl", r.choice(["typed", "let", "lettyped"]), n, "int", ("lit", "int", 1))]
        if kind == "type-name":
            return [("decl", "typed", x, "no_such_type", ("lit", "int", 1))]
        if kind == "comp-over":
            return self.wrap(("comp", ("lit", "int", 1), [(x, self.ex(r.choice(["int", "float", "bool"])), [])]), ("list", "int"))
        if kind == "comp-filter":
            return self.wrap(("comp", ("lit", "int", 1), [(x, ("call", "range", [("lit", "int", 2)], []), [self.nonbool()])]), ("list", "int"))
        if kind == "builtin-type":
            f, a = r.choice([("sqrt", "string"), ("len", "int"), ("floor", "bool"), ("range", "string"), ("sum", "int"), ("sin", ("list", "float")), ("any_true", "int"), ("ceil", "string"), ("reverse", "float"), ("concat2", "int"),
                             ("range", "float"), ("sqrt", "bool"), ("min2", "string"), ("pow2", "string")])
            if f == "concat2":
                return self.wrap(("call", "concat", [self.ex(("list", "int")), self.ex(a)], []), ("list", "int"))
            if f.endswith("2"):
                return self.wrap(("call", f[:-1], [self.ex("float"), self.ex(a)], []), "float")
            return self.wrap(("call", f, [self.ex(a)], []), "float")
        if kind == "builtin-arity":
            f, n = r.choice([("sqrt", 2), ("sqrt", 0), ("floor", 3), ("len", 0), ("concat", 1), ("pow", 1), ("pow", 3), ("sum", 2), ("atan2", 1), ("radians", 0)])
            a = [self.ex(("list", "float") if f in ("len", "concat", "sum") else "float") for _ in range(n)]
            return self.wrap(("call", f, a, []), "float")
        if kind.startswith("call"):
            cs = [c for c in g.commands if not c.get("recursive") and c["params"]]
            if not cs:
                return None
            c = r.choice(cs)
            ps = c["params"]
            args = [self.ex(p[1]) for p in ps]
            named = []
            if kind == "call-type":
                i = r.randrange(len(ps))
                args[i] = self.ex(incompatible(r, ps[i][1]))
                if r.random() < .4:
                    named = [(ps[j][0], args[j]) for j in range(i, len(ps))]
                    args = args[:i]
            elif kind == "call-missing":
                req = [i for i, p in enumerate(ps) if p[2] is None]
                if not req:
                    return None
                i = r.choice(req)
                named = [(ps[j][0], args[j]) for j in range(i + 1, len(ps))]
                args = args[:i]
            elif kind == "call-surplus":
                args.append(self.ex("int"))
            elif kind == "call-unknown":
                named = [(r.choice(["zz", ps[0][0] + "_"]), self.ex("int"))]
            elif kind == "call-twice":
                named = [(r.choice(ps)[0], None)]
                j = [p[0] for p in ps].index(named[0][0])
                named = [(named[0][0], self.ex(ps[j][1]))]
            elif kind == "call-result":
                u = incompatible(r, c["ret"])
                cand = [t2 for t2 in SC if not fits(t2, c["ret"])]
                if not cand:
                    return None
                return [("decl", "typed", x, r.choice(cand), ("call", c["name"], args, []))]
            return self.wrap(("call", c["name"], args, named), c["ret"])
        raise AssertionError(kind)


KINDS = ["narrow", "narrow", "declare", "assign", "assign-inner", "if", "elif", "require", "message", "emit", "for", "arith", "string+", "compare", "logic", "not", "neg", "tern-cond", "tern-arms", "index-of", "index-by", "list", "undefined", "function",
         "scope-block", "scope-loop", "scope-comp", "before", "self", "redeclare", "type-name", "comp-over", "comp-filter", "builtin-type", "builtin-arity", "call-type", "call-missing", "call-surplus", "call-unknown", "call-twice", "call-result",
         "default", "param-twice", "command-twice"]


class PlantGen(G.Gen):
    """Generates a program whose entry command (or a helper) has one planted statement group."""
    plan = None
    planted = None

    def block(self, depth, n, ret, top=False):
        if self.plan and self.planted is None and self.r.random() < (.6 if top else .25):
            out = []
            if not top:
                self.scopes.append({})
            k = self.r.randrange(n + 1)
            for i in range(n + 1):
                if i == k:
                    w = Wrong(self, self.r, ret).plant(self.plan)
                    if w:
                        self.planted = w
                        out += [("mark",)] + w + [("mark",)]
                        break
                out += self.stmt(depth, ret)
            if not top:
                self.scopes.pop()
            return out or [("pass",)]
        return super().block(depth, n, ret, top)


class MarkText(G.Text):
    def stmt(self, s, depth):
        if s[0] == "mark":
            return [" " * (self.ind * depth) + "# MARK"]
        return super().stmt(s, depth)


def planted(ctx, rng):
    kind = KINDS[ctx_index(rng) % len(KINDS)]
    g = PlantGen(rng, size=1)
    lines = None
    if kind in ("default", "param-twice", "command-twice"):
        cmds = g.program()
        c = rng.choice(cmds)
        if kind == "default":
            t = rng.choice(SC)
            c["params"].append((g.fresh("a"), t, g.lit(incompatible(rng, t))))
        elif kind == "param-twice":
            if not c["params"]:
                c["params"].append(("q", "int", None))
            c["params"].append(c["params"][rng.randrange(len(c["params"]))][:2] + (g.lit(c["params"][0][1]) if c["params"][-1][2] is not None else None,))
            if c["params"][-1][2] is not None:
                c["params"][-1] = c["params"][-1][:2] + (g.lit(c["params"][-1][1]),)
        else:
            d = copy.deepcopy(c)
            cmds.insert(rng.randrange(len(cmds) + 1), d)
        src = MarkText(None).program(cmds)
    else:
        for _ in range(6):
            g = PlantGen(rng, size=1)
            g.program()
            if kind.startswith("call") and len(g.commands) < 2:
                continue
            # plant in a fresh last command, so that helpers exist
            g.plan = kind
            g.commands = [c for c in g.commands if c["name"] != "MAIN"]
            g.command("MAIN", entry=True)
            if g.planted:
                break
        if not g.planted:
            ctx.ev("not-planted")
            return
        cmds = g.commands
        src = MarkText(rng if rng.random() < .5 else None, "min").program(cmds)
        ls = src.split("\n")
        lines = [i + 1 for i, l in enumerate(ls) if l.strip() == "# MARK"]
    ctx.ev("planted")
    ctx.ev("kind:" + kind)
    ctx.case(src)
    data = {"source": src, "kind": kind}
    try:
        r, errs = check(src)
    except Exception as x:
        ctx.viol("crash:" + type(x).__name__, "type checker crashes", dict(data, error=repr(x)[:300]))
        return
    if not errs or not r.has_errors:
        ctx.viol("accepted:" + kind, "an ill-typed program is accepted", data)
        return
    data["errors"] = [(d.code, d.message, d.span.start.line) for d in errs][:5]
    if lines and len(lines) == 2:
        ctx.check(any(lines[0] < d.span.start.line < lines[1] for d in errs), "location:" + kind, "no error is located on the offending statement", dict(data, lines=lines))
        # names planted by the error may have later effects, but nothing before it is wrong
        ctx.check(all(d.span.start.line > lines[0] for d in errs), "earlier:" + kind, "an error is reported before the offending statement", dict(data, lines=lines))
    raw = g.args(cmds[-1])
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        res = D.compile_and_run(src, "MAIN", raw)
    ctx.check(not res.success and res.geometry is None and bool(res.error_message) and b.getvalue() == "", "started", "a rejected program is run", data)


_n = [0]


def ctx_index(rng):
    _n[0] += 1
    return rng.randrange(10 ** 6)


# ---- random subtree swaps: what is accepted must not go wrong
CONFUSED = re.compile(r"TypeError|AttributeError|KeyError|Undefined variable|Unknown|NotImplemented|missing required|has no parameter|Cannot iterate|Cannot assign|UnboundLocal|NameError|RecursionError|AssertionError")


def subexprs(x, path=()):
    """Paths of all expression tuples in a statement/command structure."""
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("lit", "var", "bin", "un", "tern", "idx", "list", "comp", "call") and not (x[0] == "list" and not isinstance(x[1], list)):
        yield path
    if isinstance(x, (tuple, list)):
        for i, y in enumerate(x):
            yield from subexprs(y, path + (i,))
    elif isinstance(x, dict):
        for k in ("params", "body"):
            if k in x:
                yield from subexprs(x[k], path + (k,))


def put(x, path, v):
    if not path:
        return v
    k = path[0]
    if isinstance(x, dict):
        y = dict(x)
        y[k] = put(x[k], path[1:], v)
        return y
    y = list(x)
    y[k] = put(x[k], path[1:], v)
    return tuple(y) if isinstance(x, tuple) else y


def get(x, path):
    for k in path:
        x = x[k]
    return x


def swap(ctx, rng):
    g = G.Gen(rng, size=1, errors=0)
    cmds = g.program()
    raw = g.args(cmds[-1])
    paths = list(subexprs(cmds))
    new = cmds
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = rng.choice(list(subexprs(new)))
        k = rng.random()
        if k < .5:
            q = rng.choice(list(subexprs(new)))
            v = get(new, q)
        elif k < .8:
            g.scopes = [{}]
            g.effects = False
            v = g.e(g.rtype(), 2)
        else:
            v = rng.choice([("list", []), ("idx", get(new, p), ("lit", "int", 0)), ("list", [get(new, p)]), ("un", "-", get(new, p)), ("call", rng.choice(["len", "sum", "reverse", "flatten", "floor", "abs", "min", "max", "concat", "range", "print", "sqrt", "min_of"]), [get(new, p)], []),
                            ("bin", rng.choice(list(G.PREC)), get(new, p), get(new, rng.choice(list(subexprs(new))))), ("tern", ("lit", "bool", True), get(new, p), ("list", []))])
        new = put(new, p, v)
    src = G.Text(None, "full").program(new)
    if len(src) > 20000:
        return
    data = {"source": src, "params": repr(raw)}
    ctx.case(src)
    try:
        m = D.parse(D.tokenize(src), source=src)
    except Exception:
        ctx.ev("swap:unparsable")
        return
    try:
        r = D.check(m)
    except Exception as x:
        ctx.viol("crash:" + type(x).__name__, "type checker crashes", dict(data, error=repr(x)[:300]))
        return
    if r.has_errors:
        ctx.ev("swap:rejected")
        return
    ctx.ev("swap:accepted")
    main = new[-1]
    try:
        ref = G.Ref(new)
        ref.run("MAIN", raw)
    except G.Skip:
        ctx.ev("swap:skipped")
        return
    except (TypeError, AttributeError, RecursionError):
        pass
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            res = D.compile_and_run(src, "MAIN", raw)
    except Exception as x:
        ctx.viol("raises:" + type(x).__name__, "running an accepted program raises", dict(data, error=repr(x)[:300]))
        return
    if not res.success and CONFUSED.search(res.error_message or ""):
        ctx.viol("unsound:" + CONFUSED.search(res.error_message).group(0), "an accepted program stops on a type confusion", dict(data, error=res.error_message[:300]))


GROUPS = {"accept": (accept, 900, 15000), "planted": (planted, 2600, 40000), "swap": (swap, 2600, 60000)}

if __name__ == "__main__":
    vf.main(globals())
