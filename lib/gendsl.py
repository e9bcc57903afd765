"""Random well-typed programs of the core DSL, their text, and a reference evaluator.

Types: 'int' 'float' 'bool' 'string' ('list', T).
Expressions (tuples): ('lit', T, value) ('var', n) ('bin', op, l, r) ('un', op, e) ('tern', c, a, b)
('idx', l, i) ('list', [e]) ('comp', e, [(var, iter, [cond])]) ('call', name, [e], [(name, e)]).
Statements: ('decl', style, name, T, e) ('assign', n, e) ('if', [(c, block)], else|None) ('for', v, e, block)
('require', kw, c, msg|None) ('emit', e) ('expr', e) ('pass',).
Command: dict(name, params=[(n, T, default|None)], ret, body).  Program: list of commands, last is the entry.
The reference evaluator uses plain Python values; int/float differences never matter (magnitudes above LIMIT
make the program be skipped).
"""
import math

LIMIT = 1e11
STEPS = 6000
PREC = {"or": 1, "and": 2, "==": 3, "!=": 3, "<": 4, ">": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "//": 6, "%": 6, "**": 7}


def tname(t):
    return f"list<{tname(t[1])}>" if isinstance(t, tuple) else t


# ----------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, size=1.0, effects=True, errors=0.03):
        self.r = rng
        self.size = size
        self.effects = effects
        self.errors = errors
        self.n = 0
        self.commands = []
        self.scopes = []
        self.busy = 0

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def vars_of(self, t):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for n, ty in s.items():
                if n not in seen:
                    seen.add(n)
                    if ty == t:
                        out.append(n)
        return out

    def rtype(self, deep=1):
        r = self.r.random()
        if r < .3:
            return "int"
        if r < .55:
            return "float"
        if r < .7:
            return "bool"
        if r < .78:
            return "string"
        e = self.r.choice(["int", "float", "int", "bool", "string"])
        if deep and self.r.random() < .12:
            return ("list", ("list", self.r.choice(["int", "float"])))
        return ("list", e)

    # literals
    def lit(self, t):
        r = self.r
        if t == "int":
            return ("lit", "int", r.choice([0, 1, 2, 3, 4, 5, 7, 10, 12, 31]))
        if t == "float":
            return ("lit", "float", r.choice([0.0, .5, 1.0, 1.25, 2.0, 2.5, 3.75, 10.0, .125, 100.0, 0.1, 3.3]))
        if t == "bool":
            return ("lit", "bool", r.random() < .5)
        if t == "string":
            return ("lit", "string", r.choice(["", "a", "b", "ab", "x y", "quote'\"", "tab\t", "\u00e9\u2713", "back\\slash", "line\nfeed", "nul"]))
        return ("list", [self.lit(t[1]) for _ in range(r.choice([1, 1, 2, 3, 4]))])

    def num(self, d):
        return self.e("int" if self.r.random() < .5 else "float", d)

    def wide(self, t, d):
        """Expression that may stand where t is declared (int for float)."""
        if t == "float" and self.r.random() < .25:
            return self.e("int", d)
        if t == ("list", "float") and self.r.random() < .2:
            return self.e(("list", "int"), d)
        return self.e(t, d)

    def nonempty(self, t, d):
        r = self.r
        vs = self.vars_of(t)
        if vs and r.random() < .6:
            return ("var", r.choice(vs))
        return ("list", [self.e(t[1], d - 1) for _ in range(r.choice([1, 2, 3, 4]))])

    def index(self, t, d):
        r = self.r
        l = self.nonempty(("list", t), d - 1)
        if r.random() < .7 and l[0] == "list":
            i = ("lit", "int", r.randrange(len(l[1])))
        elif r.random() < .5:
            i = ("un", "-", ("lit", "int", 1))
        else:
            i = ("bin", "%", self.e("int", d - 1), ("call", "len", [l], []))
        return ("idx", l, i)

    def args_for(self, cmd, d):
        r = self.r
        ps = cmd["params"]
        npos = r.randrange(len(ps) + 1)
        pos, named = [], []
        for i, (n, t, de) in enumerate(ps):
            if i < npos:
                pos.append(self.wide(t, d))
            elif de is None or r.random() < .5:
                named.append((n, self.wide(t, d)))
        r.shuffle(named)
        return pos, named

    def helper(self, t, d):
        cs = [c for c in self.commands if c["ret"] == t]
        if not cs or self.busy > 2:
            return None
        c = self.r.choice(cs)
        self.busy += 1
        pos, named = self.args_for(c, d - 1)
        self.busy -= 1
        if c.get("recursive"):
            pos, named = [("lit", "int", self.r.randrange(0, 6))] + [self.wide(p[1], d - 1) for p in c["params"][1:]], []
        return ("call", c["name"], pos, named)

    def comp(self, t, d):
        r = self.r
        self.scopes.append({})
        clauses = []
        for ci in range(r.choice([1, 1, 1, 2, 2, 3])):
            u = r.choice(["int", "int", "float", t[1]])
            it = self.e(("list", u), min(d - 1, 1))
            # only the first clause may shadow an outer name (its iterable is evaluated once, before)
            v = self.fresh("k") if ci or r.random() < .8 or not self.scopes[-2] else r.choice(list(self.scopes[-2]))
            self.scopes[-1][v] = u
            conds = [self.e("bool", min(d - 1, 2)) for _ in range(r.choice([0, 0, 1, 1, 2]))]
            clauses.append((v, it, conds))
        el = self.e(t[1], d - 1)
        self.scopes.pop()
        return ("comp", el, clauses)

    def e(self, t, d):
        r = self.r
        if d <= 0 or r.random() < .12:
            vs = self.vars_of(t)
            if vs and r.random() < .75:
                return ("var", r.choice(vs))
            return self.lit(t)
        k = r.random()
        if k < .1:
            return ("tern", self.e("bool", d - 1), self.e(t, d - 1), self.e(t, d - 1))
        if k < .2:
            h = self.helper(t, d)
            if h:
                return h
        if k < .28 and not isinstance(t, tuple):
            return self.index(t, d)
        if t == "int":
            q = r.random()
            if q < .45:
                return ("bin", r.choice("+-*"), self.e("int", d - 1), self.e("int", d - 1))
            if q < .55:
                return ("bin", "//", self.num(d - 1), self.denom(d - 1))
            if q < .63:
                return ("bin", "%", self.e("int", d - 1), self.denom(d - 1, "int"))
            if q < .7:
                return ("bin", "**", self.e("int", min(d - 1, 1)), ("lit", "int", r.choice([0, 1, 2, 2, 3])))
            if q < .8:
                return ("un", "-", self.e("int", d - 1))
            if q < .9:
                return ("call", "len", [self.e(("list", r.choice(["int", "float", "string"])), d - 1)], [])
            return ("call", r.choice(["floor", "ceil", "round"]), [self.e("float", d - 1)], [])
        if t == "float":
            q = r.random()
            if q < .4:
                a, b = self.e("float", d - 1), self.num(d - 1)
                if r.random() < .4:
                    a, b = b, a
                return ("bin", r.choice("+-*"), a, b)
            if q < .5:
                return ("bin", "/", self.num(d - 1), self.denom(d - 1))
            if q < .57:
                return ("bin", "%", self.e("float", d - 1), self.denom(d - 1))
            if q < .62:
                return ("bin", "**", self.e("float", min(d - 1, 1)), ("lit", "int", r.choice([0, 1, 2, 2, 3])))
            if q < .72:
                return ("un", "-", self.e("float", d - 1))
            if q < .8:
                f = r.choice(["min", "max"])
                return ("call", f, [self.num(d - 1) for _ in range(r.choice([2, 2, 3, 4]))], [])
            if q < .86:
                if r.random() < self.errors:
                    return ("call", "sqrt", [self.e("float", d - 1)], [])
                return ("call", "sqrt", [("call", "abs", [self.num(d - 1)], [])], [])
            f = r.choice(["sum", "product", "min_of", "max_of"])
            if f in ("sum", "product"):
                return ("call", f, [self.e(("list", "float"), d - 1)], [])
            return ("call", f, [self.nonempty(("list", "float"), d)], [])
        if t == "bool":
            q = r.random()
            if q < .3:
                return ("bin", r.choice(["<", ">", "<=", ">="]), self.num(d - 1), self.num(d - 1))
            if q < .42:
                u = r.choice(["int", "string", "bool", ("list", "int"), "float"])
                return ("bin", r.choice(["==", "!="]), self.e(u, d - 1), self.e(u, d - 1))
            if q < .72:
                return ("bin", r.choice(["and", "or"]), self.e("bool", d - 1), self.e("bool", d - 1))
            if q < .82:
                return ("un", "not", self.e("bool", d - 1))
            if q < .92 and self.effects:
                return ("call", "print", [("lit", "string", self.fresh("t"))] + [self.e(r.choice(["int", "bool", "string", ("list", "int")]), 1) for _ in range(r.choice([0, 0, 1]))], [])
            return ("call", r.choice(["any_true", "all_true"]), [self.e(("list", "bool"), d - 1)], [])
        if t == "string":
            return self.lit(t)
        q = r.random()
        if q < .25:
            return ("list", [self.e(t[1], d - 1) for _ in range(r.choice([1, 2, 3, 4]))])
        if q < .5:
            return self.comp(t, d)
        if q < .62:
            return ("bin", "+", self.e(t, d - 1), self.e(t, d - 1))
        if q < .72:
            return ("call", "concat", [self.e(t, d - 1), self.e(t, d - 1)], [])
        if q < .82:
            return ("call", "reverse", [self.e(t, d - 1)], [])
        if t == ("list", "int"):
            k = r.random()
            lo, hi = r.randrange(-3, 4), r.randrange(-3, 8)
            L = lambda v: ("lit", "int", v) if v >= 0 else ("un", "-", ("lit", "int", -v))
            if k < .4:
                return ("call", "range", [L(hi)], [])
            if k < .7:
                return ("call", "range", [L(lo), L(hi)], [])
            return ("call", "range", [L(lo), L(hi), L(r.choice([1, 2, 3, -1, -2]))], [])
        if t[1] in ("int", "float") and q < .92:
            return ("call", "flatten", [("list", [self.e(t, d - 2) for _ in range(r.choice([1, 2, 3]))])], [])
        return self.lit(t)

    def denom(self, d, kind=None):
        r = self.r
        if r.random() < self.errors:
            return self.e(kind or "int", d)
        if kind == "int" or r.random() < .6:
            v = ("lit", "int", r.choice([1, 2, 3, 4, 5, 7, 8]))
            return v if r.random() < .8 else ("un", "-", v)
        return ("lit", "float", r.choice([.5, 1.5, 2.0, 4.0, .25]))

    # statements
    def block(self, depth, n, ret, top=False):
        out = []
        if not top:
            self.scopes.append({})
        for _ in range(n):
            out += self.stmt(depth, ret)
        if not out:
            out = [("pass",)]
        if not top:
            self.scopes.pop()
        return out

    def stmt(self, depth, ret):
        r = self.r
        q = r.random()
        D = r.choice([1, 2, 2, 3, 3, 4])
        if q < .36:
            t = self.rtype()
            style = r.choice(["typed", "typed", "let", "lettyped", "bare"])
            e = self.wide(t, D) if style in ("typed", "lettyped") else self.e(t, D)
            name = self.fresh()
            outer = [n for s in self.scopes[:-1] for n in s if n not in self.scopes[-1]]
            if style != "bare" and outer and len(self.scopes) > 1 and r.random() < .2:
                name = r.choice(outer)          # shadows an outer name
            self.scopes[-1][name] = t
            return [("decl", style, name, t, e)]
        if q < .54:
            t = self.rtype()
            vs = self.vars_of(t)
            if vs:
                n = r.choice(vs)
                if r.random() < .5:
                    t2 = t if not isinstance(t, tuple) else None
                    if t2 in ("int", "float"):
                        return [("assign", n, ("bin", r.choice("+-"), ("var", n), self.e(t2, D - 1)))]
                    if t2 is None:
                        return [("assign", n, ("bin", "+", ("var", n), ("list", [self.e(t[1], D - 1)])))]
                return [("assign", n, self.wide(t, D))]
            return []
        if q < .66 and depth > 0:
            arms = [(self.e("bool", D), self.block(depth - 1, r.choice([1, 2, 3]), ret)) for _ in range(r.choice([1, 1, 2, 3]))]
            el = self.block(depth - 1, r.choice([1, 2]), ret) if r.random() < .5 else None
            return [("if", arms, el)]
        if q < .78 and depth > 0:
            u = r.choice(["int", "int", "float", "string"])
            it = self.e(("list", u), 2)
            v = self.fresh("i")
            self.scopes.append({v: u})
            body = self.block(depth - 1, r.choice([1, 2, 3]), ret, top=True)
            self.scopes.pop()
            return [("for", v, it, body)]
        if q < .82:
            c = self.e("bool", 2)
            if r.random() < .85:
                c = ("bin", "or", ("lit", "bool", True), c) if r.random() < .5 else ("bin", "==", c, c)
            if self.effects and c[0] == "bin" and c[1] == "==":
                c = ("lit", "bool", True)
            return [("require", r.choice(["require", "assert"]), c, ("lit", "string", self.fresh("msg")) if r.random() < .7 else None)]
        if q < .86 and depth < 3:
            return [("emit", self.wide(ret, 2))]
        if q < .97 and self.effects:
            ts = [self.rtype() for _ in range(r.choice([1, 1, 2]))]
            return [("expr", ("call", "print", [("lit", "string", self.fresh("p"))] + [self.e(t, 2) for t in ts], []))]
        h = self.helper(self.rtype(), 2)
        return [("expr", h)] if h else []

    def command(self, name, entry=False):
        r = self.r
        self.scopes = [{}]
        params, defaulted = [], False
        for _ in range(r.choice([0, 1, 2, 3, 4]) if not entry else r.choice([0, 1, 2, 3])):
            t = self.rtype()
            d = None
            if defaulted or r.random() < .35:
                defaulted = True
                ef, self.effects = self.effects, False
                d = self.wide(t, 2)
                self.effects = ef
            n = self.fresh("a")
            params.append((n, t, d))
            self.scopes[0][n] = t
        ret = self.rtype()
        body = self.block(3, max(1, int(r.choice([1, 2, 3, 5, 7]) * self.size)), ret, top=True)
        body.append(("emit", self.wide(ret, 3)))
        if r.random() < .15:
            body.append(("expr", ("call", "print", [("lit", "string", "after emit")], [])))
        self.scopes = []
        c = dict(name=name, params=params, ret=ret, body=body)
        self.commands.append(c)
        return c

    def recursive(self, name):
        r = self.r
        t = r.choice(["int", "float", ("list", "int")])
        params = [("n", "int", None)]
        self.scopes = [{"n": "int"}]
        if r.random() < .5:
            params.append(("w", t, None))
            self.scopes[0]["w"] = t
        base, step = self.e(t, 2), self.e(t, 1)
        args = [("bin", "-", ("var", "n"), ("lit", "int", 1))] + [self.e(t, 1) for p in params[1:]]
        self.scopes = []
        rec = ("call", name, args, [])
        c = dict(name=name, params=params, ret=t, recursive=True, body=[
            ("if", [(("bin", "<=", ("var", "n"), ("lit", "int", 0)), [("emit", base)])], None),
            ("emit", ("bin", "+", rec, step))])
        self.commands.append(c)
        return c

    def program(self):
        r = self.r
        for i in range(r.choice([0, 0, 1, 1, 2, 3])):
            if r.random() < .25:
                self.recursive(f"h{i}")
            else:
                self.command(f"h{i}")
        self.command("MAIN", entry=True)
        return self.commands

    def args(self, cmd):
        """Raw parameter values for the entry command."""
        out = {}
        for n, t, d in cmd["params"]:
            if d is not None and self.r.random() < .5:
                continue
            out[n] = self.raw(t)
        return out

    def raw(self, t):
        if isinstance(t, tuple):
            return [self.raw(t[1]) for _ in range(self.r.randrange(4))]
        if t == "int":
            return self.r.randrange(-5, 12)
        if t == "float":
            return self.r.choice([self.r.randrange(-20, 40) / 4, float(self.r.randrange(-3, 9)), self.r.uniform(-5, 5)])
        if t == "bool":
            return self.r.random() < .5
        return self.r.choice(["", "s", "x y", "\u00e9"])


# ----------------------------------------------------------------- text
ESC = {"\n": "\\n", "\t": "\\t", "\\": "\\\\", "\r": "\\r", "\0": "\\0"}


class Text:
    """mode: 'min' (parentheses only where needed), 'full', 'mix'; layout noise when rng is given."""

    def __init__(self, rng=None, mode="min", indent=4):
        self.r, self.mode, self.ind = rng, mode, indent

    def rnd(self):
        return self.r.random() if self.r is not None else 1.0

    def string(self, s):
        q = '"' if self.rnd() > .3 else "'"
        o = "".join(ESC.get(c, "\\" + c if c == q else c) for c in s)
        if self.rnd() < .2:
            o = "".join(f"\\u{ord(c):04x}" if ord(c) < 0x10000 and (self.rnd() < .3) and c not in "\\" else c for c in s) if "\\" not in s and "\n" not in s and q not in s and "\t" not in s else o
        return q + o + q

    def number(self, t, v):
        k = self.rnd()
        if t == "int":
            if k < .06:
                return hex(v)
            if k < .1:
                return bin(v)
            return str(v)
        if k < .1:
            return f"{v:.3e}" if float(f"{v:.3e}") == v else repr(v)
        if k < .15 and v == int(v):
            return f"{int(v)}e0"
        return repr(v)

    def paren(self, s, need):
        if need or self.mode == "full" or (self.mode == "mix" and self.rnd() < .25):
            return "(" + self.sp() + s + self.sp() + ")"
        return s

    def sp(self):
        k = self.rnd()
        if k < .03:
            return "\n" + " " * int(self.rnd() * 9)
        if k < .04:
            return "  # note\n"
        return " " if k < .08 else ""

    def comma(self):
        return "," + (self.sp() or " ")

    def lv(self, e):
        """Binding strength of the expression's outermost operator."""
        return {"tern": 0, "bin": PREC.get(e[1] if e[0] == "bin" else "", 9), "un": 8}.get(e[0], 9)

    def e(self, e, lo=0):
        """Text of e for a place that takes operators of strength >= lo."""
        k = e[0]
        if k == "lit":
            t, v = e[1], e[2]
            if t == "bool":
                return ("true" if v else "false") if self.rnd() < .5 else str(v)
            if t == "string":
                return self.string(v)
            return self.number(t, v)
        if k == "var":
            return e[1]
        if k == "bin":
            p = PREC[e[1]]
            right = e[1] == "**"
            l, r = self.e(e[2], p + 1 if right else p), self.e(e[3], p if right else p + 1)
            tight = self.rnd() < .2 and e[1] not in ("and", "or")
            return self.paren(f"{l}{e[1]}{r}" if tight else f"{l} {e[1]} {r}", p < lo)
        if k == "un":
            s = self.e(e[2], 8)
            return self.paren(("not " if e[1] == "not" else "-") + s, 8 < lo)
        if k == "tern":
            return self.paren(f"{self.e(e[2], 1)} if {self.e(e[1], 1)} else {self.e(e[3], 0)}", 0 < lo)
        if k == "idx":
            return self.e(e[1], 9) + "[" + self.sp() + self.e(e[2]) + self.sp() + "]"
        if k == "list":
            return "[" + self.sp() + self.comma().join(self.e(x) for x in e[1]) + ("," if e[1] and self.rnd() < .0 else "") + self.sp() + "]"
        if k == "comp":
            return "[" + self.sp() + self.e(e[1], 1) + "".join(f" for {v} in {self.e(it, 1)}" + "".join(f" if {self.e(c, 1)}" for c in cs) for v, it, cs in e[2]) + self.sp() + "]"
        if k == "call":
            return e[1] + "(" + self.sp() + self.comma().join([self.e(x) for x in e[2]] + [f"{n}={self.e(x)}" for n, x in e[3]]) + self.sp() + ")"
        raise AssertionError(k)

    def block(self, ss, depth):
        out = []
        for s in ss:
            out += self.stmt(s, depth)
        return out

    def stmt(self, s, depth):
        pad = " " * (self.ind * depth)
        k = s[0]
        noise = []
        if self.rnd() < .05:
            noise.append("")
        if self.rnd() < .05:
            noise.append(" " * int(self.rnd() * 12) + "# comment: let x = (")
        if self.rnd() < .02:
            noise.append(pad + "/* block\n comment */")
        tail = "  # c" if self.rnd() < .05 else ("   " if self.rnd() < .05 else "")
        if k == "decl":
            _, style, n, t, e = s
            o = {"typed": f"{n}: {tname(t)} = ", "let": f"let {n} = ", "lettyped": f"let {n}: {tname(t)} = ", "bare": f"{n} = "}[style] + self.e(e)
        elif k == "assign":
            o = f"{s[1]} = {self.e(s[2])}"
        elif k == "require":
            o = f"{s[1]} {self.e(s[2])}" + (f", {self.e(s[3])}" if s[3] is not None else "")
        elif k == "emit":
            o = f"emit {self.e(s[1])}"
        elif k == "expr":
            o = self.e(s[1])
        elif k == "pass":
            o = "pass"
        elif k == "for":
            return noise + [f"{pad}for {s[1]} in {self.e(s[2])}:{tail}"] + self.block(s[3], depth + 1)
        elif k == "if":
            out = noise
            for i, (c, b) in enumerate(s[1]):
                out += [f"{pad}{'elif' if i else 'if'} {self.e(c)}:{tail}"] + self.block(b, depth + 1)
            if s[2] is not None:
                out += [f"{pad}else:"] + self.block(s[2], depth + 1)
            return out
        return noise + [pad + o + tail]

    def command(self, c):
        ps = ", ".join(f"{n}: {tname(t)}" + (f" = {self.e(d)}" if d is not None else "") for n, t, d in c["params"])
        return [f"command {c['name']}({ps}) -> {tname(c['ret'])}:"] + self.block(c["body"], 1)

    def program(self, cmds, name="m"):
        out = [f"module {name}", ""]
        for c in cmds:
            out += self.command(c) + [""]
        return "\n".join(out) + ("\n" if self.rnd() > .1 else "")


# ----------------------------------------------------------------- reference evaluator
class RtError(Exception):
    pass


class Require(Exception):
    pass


class Skip(Exception):
    pass


class Emit(Exception):
    pass


def show(v):
    return str(v)


class Ref:
    def __init__(self, cmds, limit=100):
        self.c = {c["name"]: c for c in cmds}
        self.out, self.steps, self.depth, self.limit = [], 0, 0, limit
        self.stats = {}

    def hit(self, n):
        self.stats[n] = self.stats.get(n, 0) + 1

    def run(self, name, raw):
        """('ok', value) ('require', msg) ('error', kind); prints in self.out."""
        c = self.c[name]
        try:
            env = self.bind(c, [], {k: v for k, v in raw.items()})
            return ("ok", self.body(c, env))
        except Require as x:
            return ("require", x.args[0])
        except (ZeroDivisionError, IndexError, RtError, ValueError, OverflowError) as x:
            return ("error", type(x).__name__)

    def bind(self, c, pos, named):
        sc = {}
        for i, (n, t, d) in enumerate(c["params"]):
            if i < len(pos):
                sc[n] = pos[i]
            elif n in named:
                sc[n] = named[n]
            elif d is not None:
                self.hit("default")
                sc[n] = self.e(d, [sc])
            else:
                raise RtError("missing")
        return sc

    def body(self, c, env):
        scopes = [env]
        try:
            self.block(c["body"], scopes, new=False)
        except Emit as x:
            return x.args[0]
        raise RtError("no emit")

    def block(self, ss, sc, new=True):
        if new:
            sc.append({})
        try:
            for s in ss:
                self.stmt(s, sc)
        finally:
            if new:
                sc.pop()

    def stmt(self, s, sc):
        self.tick()
        k = s[0]
        if k == "decl":
            v = self.e(s[4], sc)
            sc[-1][s[2]] = v
        elif k == "assign":
            v = self.e(s[2], sc)
            for x in reversed(sc):
                if s[1] in x:
                    x[s[1]] = v
                    self.hit("assign-outer" if x is not sc[-1] else "assign")
                    return
            raise RtError("undefined")
        elif k == "if":
            for c, b in s[1]:
                if self.e(c, sc):
                    self.hit("then")
                    self.block(b, sc)
                    return
            if s[2] is not None:
                self.hit("else")
                self.block(s[2], sc)
        elif k == "for":
            for v in list(self.e(s[2], sc)):
                self.hit("iteration")
                sc.append({s[1]: v})
                try:
                    self.block(s[3], sc, new=False)
                finally:
                    sc.pop()
        elif k == "require":
            self.hit("require")
            if not self.e(s[2], sc):
                raise Require(self.e(s[3], sc) if s[3] is not None else None)
        elif k == "emit":
            raise Emit(self.e(s[1], sc))
        elif k == "expr":
            self.e(s[1], sc)

    def tick(self):
        self.steps += 1
        if self.steps > STEPS:
            raise Skip("steps")

    def ok(self, v):
        if isinstance(v, complex):
            raise Skip("complex")
        if isinstance(v, (int, float)) and not isinstance(v, bool) and not abs(v) < LIMIT:
            raise Skip("range")
        if isinstance(v, list) and len(v) > 3000:
            raise Skip("length")
        return v

    def e(self, e, sc):
        return self.ok(self.e_(e, sc))

    def e_(self, e, sc):
        self.tick()
        k = e[0]
        if k == "lit":
            return e[2]
        if k == "var":
            for x in reversed(sc):
                if e[1] in x:
                    return x[e[1]]
            raise RtError("undefined " + e[1])
        if k == "bin":
            op = e[1]
            a = self.e(e[2], sc)
            if op == "and":
                return bool(a and self.e(e[3], sc))
            if op == "or":
                return bool(a or self.e(e[3], sc))
            b = self.e(e[3], sc)
            self.hit(op)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return int(a // b)
            if op == "%":
                return a % b
            if op == "**":
                return a ** b
            return {"==": a == b, "!=": a != b}[op] if op in ("==", "!=") else a < b if op == "<" else a > b if op == ">" else a <= b if op == "<=" else a >= b
        if k == "un":
            v = self.e(e[2], sc)
            return (not v) if e[1] == "not" else -v
        if k == "tern":
            self.hit("ternary")
            return self.e(e[2] if self.e(e[1], sc) else e[3], sc)
        if k == "idx":
            l = self.e(e[1], sc)
            return l[self.e(e[2], sc)]
        if k == "list":
            return [self.e(x, sc) for x in e[1]]
        if k == "comp":
            self.hit("comprehension")
            out = []
            sc.append({})
            try:
                self.clauses(e, 0, sc, out)
            finally:
                sc.pop()
            return out
        if k == "call":
            pos = [self.e(x, sc) for x in e[2]]
            named = {n: self.e(x, sc) for n, x in e[3]}
            if e[1] in self.c:
                self.hit("helper")
                if named:
                    self.hit("named")
                self.depth += 1
                try:
                    if self.depth > self.limit:
                        raise RtError("recursion")
                    c = self.c[e[1]]
                    return self.body(c, self.bind(c, pos, named))
                finally:
                    self.depth -= 1
            return self.builtin(e[1], pos)
        raise AssertionError(k)

    def clauses(self, e, i, sc, out):
        if i == len(e[2]):
            out.append(self.e(e[1], sc))
            return
        v, it, conds = e[2][i]
        for x in list(self.e(it, sc)):
            sc[-1][v] = x
            if all(self.e(c, sc) for c in conds):
                self.clauses(e, i + 1, sc, out)

    def builtin(self, n, a):
        self.hit("builtin:" + n)
        if n == "print":
            self.out.append(" ".join(show(x) for x in a))
            return True
        if n == "len":
            return len(a[0])
        if n in ("min", "max"):
            return (min if n == "min" else max)(a)
        if n == "abs":
            return abs(a[0])
        if n == "sqrt":
            return math.sqrt(a[0])
        if n == "floor":
            return math.floor(a[0])
        if n == "ceil":
            return math.ceil(a[0])
        if n == "round":
            return round(a[0])
        if n == "sum":
            p = 0.0
            for x in a[0]:
                p += x
            return p
        if n == "product":
            p = 1.0
            for x in a[0]:
                p *= x
                self.ok(p)
            return p
        if n == "min_of":
            return min(a[0])
        if n == "max_of":
            return max(a[0])
        if n == "any_true":
            return any(a[0])
        if n == "all_true":
            return all(a[0])
        if n == "concat":
            return a[0] + a[1]
        if n == "reverse":
            return a[0][::-1]
        if n == "flatten":
            return [x for l in a[0] for x in l]
        if n == "range":
            return list(range(*a))
        raise AssertionError(n)
