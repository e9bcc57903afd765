import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import dataclasses, random, re
import gendsl as G
import vf

PROP = "C19"
LEVEL = "exploration"
META = dict(
    title="DSL source is read exactly: tokens, spans and syntax trees match the text",
    statement="For every DSL source, the token list reproduces the text: each token's span and lexeme give its exact characters, with the right line and column, tokens do not overlap and only white space and comments lie between them, INDENT and DEDENT match the block structure and the list ends with one EOF. Numbers (decimal, hex, binary with underscores, floats, exponents) and strings (both quotes, triple-quoted, all escapes) have the value their text denotes. The syntax tree is the one the text denotes under the documented precedence and associativity (or < and < equality < comparison < sum < product < power (right) < unary; ternary lowest), with the same statements, blocks, parameters, defaults and named arguments; redundant parentheses, comments, blank lines, trailing space, CRLF line ends, indentation width and line breaks inside brackets change nothing. @ui and @meta hints carry the written literals. Malformed text never crashes or hangs: it is refused with a DSL error whose location lies in the source, and the same text is always treated the same way.",
    over=["inputs"], q="for all source texts, well-formed or not",
    why="Every design enters through the lexer and parser; a wrong precedence, lost statement or shifted span silently changes the part that is made, and tests sample a few dozen snippets.",
    files=["src/yapcad/dsl/lexer.py", "src/yapcad/dsl/parser.py", "src/yapcad/dsl/tokens.py", "src/yapcad/dsl/errors.py", "src/yapcad/dsl/ast.py"],
    mech=[("Lexer", "src/yapcad/dsl/lexer.py"), ("Parser", "src/yapcad/dsl/parser.py")],
    technique="round-trip oracle: random typed programs are written out with random layout and parentheses, tokenised under a span monitor and parsed, and the tree is compared node by node with the program it was written from",
    note="Exploration of the core language (commands, parameters with defaults, declarations, assignment, if/elif/else, for, require, emit with metadata, comprehensions, calls). Lambda, match, native and python blocks are only exercised through malformed input.",
)
RULE = "random programs, literals, layouts, hints and corrupted sources; distinct by text"
REQUIRE = {"dict": 400, "tokens": 60000, "nodes": 40000, "roundtrip": 500, "number": 1500, "string": 1500, "layout": 900, "refused": 1200, "hint": 400}
WALL_QUICK = 200


def init():
    global D, TT, OPS, T, err
    from yapcad import dsl as D
    from yapcad.dsl import ast as T, errors as err
    from yapcad.dsl.tokens import TokenType as TT
    OPS = {TT.PLUS: "+", TT.MINUS: "-", TT.STAR: "*", TT.SLASH: "/", TT.DOUBLE_SLASH: "//", TT.PERCENT: "%", TT.DOUBLE_STAR: "**", TT.EQ: "==", TT.NE: "!=",
           TT.LT: "<", TT.GT: ">", TT.LE: "<=", TT.GE: ">=", TT.AND: "and", TT.OR: "or"}
    sys.setrecursionlimit(5000)


# ---------------------------------------------------------------- monitors
GAP = re.compile(r"(?:\s|#[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)*\Z")


def watch_tokens(ctx, src, toks, gaps=True):
    """Span monitor over a token list."""
    ends, depth, prev = [0], 0, 0
    starts = [0] + [i + 1 for i, c in enumerate(src) if c == "\n"]
    import bisect
    ok = True

    def fail(what, t):
        nonlocal ok
        ok = False
        ctx.viol("tokens:" + what, f"token list does not reproduce the text ({what})", {"source": src[:2000], "token": repr(t)})

    for i, t in enumerate(toks):
        ctx.ev("tokens")
        a, b = t.span.start, t.span.end
        for loc in (a, b):
            ln = bisect.bisect_right(starts, loc.offset)
            if (loc.line, loc.column) != (ln, loc.offset - starts[ln - 1] + 1) and not (loc.offset == len(src)):
                return fail("line/column", t)
        if t.type in (TT.INDENT, TT.DEDENT):
            depth += 1 if t.type == TT.INDENT else -1
            if depth < 0 and gaps:
                return fail("dedent", t)
            continue
        if t.type == TT.EOF:
            if i != len(toks) - 1:
                return fail("eof", t)
            continue
        if a.offset < prev or b.offset < a.offset:
            return fail("overlap", t)
        if gaps and not GAP.match(src[prev:a.offset]):
            return fail("gap", t)
        if t.type != TT.NEWLINE and src[a.offset:b.offset] != t.lexeme:
            return fail("lexeme", t)
        if t.type == TT.NEWLINE and src[a.offset:b.offset] != "\n":
            return fail("newline", t)
        if not (t.lexeme or t.type == TT.NEWLINE):
            return fail("empty", t)
        prev = b.offset
    if not toks or toks[-1].type != TT.EOF or (gaps and depth != 0):
        return fail("end", toks[-1] if toks else None)
    if gaps and not GAP.match(src[prev:]):
        return fail("tail", toks[-1])
    return ok


class Conv:
    """Parser tree -> program tuples of gendsl."""

    def __init__(self):
        self.nodes = 0

    def type(self, t):
        if t is None:
            return None
        if isinstance(t, T.GenericType):
            return (t.name, *[self.type(x) for x in t.type_args])
        return t.name

    def e(self, x):
        self.nodes += 1
        n = type(x).__name__
        if n == "Literal":
            t = {TT.INT_LITERAL: "int", TT.FLOAT_LITERAL: "float", TT.BOOL_LITERAL: "bool", TT.STRING_LITERAL: "string"}[x.literal_type]
            return ("lit", t, x.value)
        if n == "Identifier":
            return ("var", x.name)
        if n == "BinaryOp":
            return ("bin", OPS[x.operator], self.e(x.left), self.e(x.right))
        if n == "UnaryOp":
            return ("un", "not" if x.operator == TT.NOT else "-" if x.operator == TT.MINUS else str(x.operator), self.e(x.operand))
        if n == "ConditionalExpr":
            return ("tern", self.e(x.condition), self.e(x.true_branch), self.e(x.false_branch))
        if n == "IndexAccess":
            return ("idx", self.e(x.object), self.e(x.index))
        if n == "ListLiteral":
            return ("list", [self.e(y) for y in x.elements])
        if n == "ListComprehension":
            return ("comp", self.e(x.element_expr), [(c.variable, self.e(c.iterable), [self.e(y) for y in c.conditions]) for c in x.clauses])
        if n == "FunctionCall":
            c = self.e(x.callee)
            return ("call", c[1] if c[0] == "var" else c, [self.e(y) for y in x.arguments], [(k, self.e(v)) for k, v in x.named_arguments.items()])
        return (n,)

    def block(self, b):
        out = [self.stmt(s) for s in b.statements]
        if b.final_expression is not None:
            out.append(("expr", self.e(b.final_expression)))
        return out

    def stmt(self, s):
        self.nodes += 1
        n = type(s).__name__
        if n == "VarDecl":
            return ("decl", s.may_assign, s.name, self.type(s.type_annotation), self.e(s.initializer) if s.initializer is not None else None)
        if n == "AssertStatement":
            return ("require", self.e(s.condition), self.e(s.message) if s.message is not None else None)
        if n == "EmitStatement":
            return ("emit", self.e(s.value), [(k, self.e(v)) for k, v in s.metadata.items()])
        if n == "ForStatement":
            return ("for", s.variable, self.e(s.iterable), self.block(s.body))
        if n == "IfStatement":
            return ("if", [(self.e(s.condition), self.block(s.then_branch))] + [(self.e(b.condition), self.block(b.body)) for b in s.elif_branches], self.block(s.else_branch) if s.else_branch is not None else None)
        if n == "PassStatement":
            return ("pass",)
        if n == "ExpressionStatement":
            return ("expr", self.e(s.expression))
        return (n,)

    def module(self, m):
        return [(c.name, [(p.name, self.type(p.type_annotation), self.e(p.default_value) if p.default_value is not None else None) for p in c.parameters], self.type(c.return_type), self.block(c.body)) for c in m.commands]


def want_stmt(s):
    k = s[0]
    if k == "decl":
        return ("decl", s[1] == "bare", s[2], s[3] if "typed" in s[1] else None, s[4])
    if k == "assign":
        return ("decl", True, s[1], None, s[2])
    if k == "require":
        return ("require", s[2], s[3])
    if k == "emit":
        return ("emit", s[1], list(s[2]) if len(s) > 2 else [])
    if k == "for":
        return ("for", s[1], s[2], [want_stmt(x) for x in s[3]])
    if k == "if":
        return ("if", [(c, [want_stmt(x) for x in b]) for c, b in s[1]], [want_stmt(x) for x in s[2]] if s[2] is not None else None)
    return s


def want(cmds):
    return [(c["name"], [tuple(p) for p in c["params"]], c["ret"], [want_stmt(s) for s in c["body"]]) for c in cmds]


def first_diff(a, b, path=()):
    if type(a) != type(b):
        return path, a, b
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(x, y, path + (i,))
            if d:
                return d
        return None
    return None if a == b else (path, a, b)


def plain(m):
    """Tree without spans, for comparing two parses."""
    if dataclasses.is_dataclass(m):
        return (type(m).__name__,) + tuple((f.name, plain(getattr(m, f.name))) for f in dataclasses.fields(m) if f.name != "span")
    if isinstance(m, (list, tuple)):
        return [plain(x) for x in m]
    if isinstance(m, dict):
        return {k: plain(v) for k, v in m.items()}
    return m


def spans_inside(ctx, src, m):
    """Every expression's span covers its children and starts at its own text."""
    bad = []

    def visit(n):
        kids = []
        for f in dataclasses.fields(n):
            v = getattr(n, f.name)
            vs = v if isinstance(v, list) else list(v.values()) if isinstance(v, dict) else [v]
            kids += [x for x in vs if isinstance(x, T.AstNode)]
        for k in kids:
            if isinstance(n, T.Expression) and isinstance(k, T.Expression) and not (n.span.start.offset <= k.span.start.offset and k.span.end.offset <= n.span.end.offset):
                bad.append((type(n).__name__, type(k).__name__))
            visit(k)
        if isinstance(n, T.Identifier) and src[n.span.start.offset:n.span.end.offset] != n.name:
            bad.append(("Identifier", n.name))
    visit(m)
    ctx.ev("span-checked")
    if bad:
        ctx.viol("spans", f"syntax tree span outside its parent: {bad[0]}", {"source": src[:2000]})


# ---------------------------------------------------------------- groups
def noise_mode(rng):
    return rng.choice(["min", "min", "full", "mix", "mix"])


def roundtrip(ctx, rng):
    g = G.Gen(rng, size=rng.choice([.5, 1, 1.5]))
    cmds = g.program()
    if rng.random() < .3:     # emit with metadata
        e = cmds[-1]["body"]
        for i, s in enumerate(e):
            if s[0] == "emit":
                e[i] = ("emit", s[1], [("name", ("lit", "string", "n")), ("mass", ("bin", "+", ("lit", "int", 1), ("lit", "float", 2.5)))])
    t = MetaText(rng if rng.random() < .8 else None, noise_mode(rng), rng.choice([1, 2, 3, 4, 8]))
    src = t.program(cmds)
    if rng.random() < .3:
        src = re.sub(r"(?m)^command (?=\w+\()", "def ", src)
    crlf = rng.random() < .2
    if crlf:
        src = src.replace("\n", "\r\n")
    try:
        toks = D.tokenize(src)
        m = D.parse(toks, source=src)
    except Exception as x:
        ctx.viol("roundtrip:refused", f"well-formed program refused: {type(x).__name__}", {"source": src, "error": str(x)[:500]})
        return
    watch_tokens(ctx, src, toks)
    c = Conv()
    got = c.module(m)
    ctx.ev("nodes", c.nodes)
    ctx.ev("roundtrip")
    ctx.case(src)
    d = first_diff(want(cmds), got)
    if d:
        k = next((x[0] for x in (d[1], d[2]) if isinstance(x, tuple) and x and isinstance(x[0], str)), type(d[1]).__name__)
        ctx.viol(f"roundtrip:{k}", "the syntax tree is not the one the text denotes", {"source": src, "expected": repr(d[1])[:600], "got": repr(d[2])[:600], "path": repr(d[0])})
    spans_inside(ctx, src, m)
    ctx.check(m.name == "m", "roundtrip:module", "module name lost", {"source": src[:200]})


class MetaText(G.Text):
    def stmt(self, s, depth):
        if s[0] == "emit" and len(s) > 2:
            return [" " * (self.ind * depth) + f"emit {self.e(s[1])}" + "".join(f", {k}={self.e(v)}" for k, v in s[2])]
        return super().stmt(s, depth)


def lex1(src):
    toks = [t for t in D.tokenize(src) if t.type not in (TT.NEWLINE, TT.EOF)]
    return toks


def under(rng, s):
    """Underscores between the digits of s."""
    return "".join(c + ("_" if rng.random() < .2 and i < len(s) - 1 else "") for i, c in enumerate(s))


def literals(ctx, rng):
    # numbers
    k = rng.randrange(6)
    if k == 0:
        v = rng.choice([rng.randrange(10), rng.randrange(10 ** 6), rng.randrange(10 ** 20)])
        txt, typ = str(v), TT.INT_LITERAL
    elif k == 1:
        v = rng.randrange(16 ** rng.choice([1, 2, 4, 12]))
        txt = rng.choice(["0x", "0X"]) + under(rng, rng.choice(["%x", "%X"]) % v)
        typ = TT.INT_LITERAL
    elif k == 2:
        v = rng.randrange(2 ** rng.choice([1, 3, 8, 40]))
        txt, typ = rng.choice(["0b", "0B"]) + under(rng, bin(v)[2:]), TT.INT_LITERAL
    else:
        txt = str(rng.randrange(10 ** rng.choice([1, 2, 5])))
        if k == 3 or rng.random() < .5:
            txt += "." + "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 2, 6, 17])))
        if k > 3:
            txt += rng.choice("eE") + rng.choice(["", "+", "-"]) + str(rng.randrange(rng.choice([5, 30])))
        if "." not in txt and "e" not in txt.lower():
            txt += ".0"
        v, typ = float(txt), TT.FLOAT_LITERAL
    after = rng.choice(["", " ", ")", "+x", ",", "\n", "#c", "..5", ".x"]) if typ == TT.INT_LITERAL else rng.choice(["", " ", ")", "-x", ",", "\n"])
    if k in (0, 3) and after.startswith("."):
        after = ""
    toks = lex1("x = " + txt + after)
    t = toks[2]
    ctx.ev("number")
    ctx.case(("n", txt + after))
    ctx.check(t.type == typ and type(t.value) is type(v) and t.value == v and t.lexeme == txt, "number:" + ["dec", "hex", "bin", "float", "exp", "exp"][k], "number literal read wrongly", {"text": txt + after, "value": repr(t.value), "token": str(t.type)})
    watch_tokens(ctx, "x = " + txt + after, D.tokenize("x = " + txt + after))
    # strings
    q = rng.choice(['"', "'", '"""', "'''"])
    val, out = "", ""
    for _ in range(rng.choice([0, 1, 3, 8, 20])):
        c = rng.randrange(9)
        if c < 4:
            ch = rng.choice("abc XYZ09#/*(){}[]:;,.-+=<>@!?$~`^&|%" + "\u00e9\u03c0\u2713\U0001f600")
            if out.endswith("\\") and False:
                ch = "a"
            val, out = val + ch, out + ch
        elif c == 4:
            a, b = rng.choice([("n", "\n"), ("t", "\t"), ("r", "\r"), ("\\", "\\"), ('"', '"'), ("'", "'"), ("0", "\0")])
            val, out = val + b, out + "\\" + a
        elif c == 5:
            n = rng.randrange(256)
            val, out = val + chr(n), out + "\\x" + rng.choice(["%02x", "%02X"]) % n
        elif c == 6:
            n = rng.choice([0x41, 0xe9, 0x20ac, rng.randrange(0x20, 0xd7ff)])
            val, out = val + chr(n), out + "\\u" + rng.choice(["%04x", "%04X"]) % n
        elif c == 7:
            o = "'" if q[0] == '"' else '"'
            val, out = val + o, out + o
        elif len(q) == 3:
            ch = rng.choice(["\n", q[0] + "z", "  \n  "])
            val, out = val + ch, out + ch
    src = "x = " + q + out + q + rng.choice(["", " ", "\n", ")", " # c"])
    try:
        toks = D.tokenize(src)
        t = toks[2]
        good = t.type == TT.STRING_LITERAL and t.value == val
    except Exception as x:
        good, t = False, x
    ctx.ev("string")
    ctx.case(("s", src))
    if ctx.check(good, "string", "string literal read wrongly", {"text": src, "expected": val, "got": repr(getattr(t, "value", t))}):
        watch_tokens(ctx, src, toks)
    # literals that must be refused
    bad = rng.choice(["0x", "0xg", "0b", "0b2", "1e", "1e+", "2.5e-", '"abc', "'abc\n'", '"""abc', "'''a''", '"\\q"', '"\\x4"', '"\\xzz"', '"\\u12"', '"\\u12g4"', "/* open", "/* a /* b */", "$", "`", "x ! y", "~1", '"\\'])
    try:
        D.tokenize("x = " + bad)
        ctx.viol("refuse:" + bad[:6], "malformed literal accepted", {"text": bad})
    except err.LexerError as x:
        ctx.ev("refused")
        located(ctx, "x = " + bad, x)
    except Exception as x:
        ctx.viol("refuse:" + type(x).__name__, "malformed literal: not a DSL error", {"text": bad, "error": repr(x)})


def located(ctx, src, x):
    """A DSL error names a place inside the source, and can be shown."""
    d = getattr(x, "diagnostic", None)
    if d is None:
        ctx.viol("error:shape", "DSL error without a diagnostic", {"source": src[:1000], "error": repr(x)})
        return
    s = d.span
    nl = src.count("\n") + 1
    ok = 0 <= s.start.offset <= s.end.offset <= len(src) and 1 <= s.start.line <= nl and s.start.column >= 1 and re.fullmatch(r"[EW]\d{3}", d.code) is not None
    ctx.check(ok, "error:location", "error located outside the source", {"source": src[:1000], "span": repr(s), "code": d.code})
    try:
        txt = d.format()
        good = d.message in txt and d.code in txt and d.to_json()["code"] == d.code
    except Exception as y:
        good, txt = False, repr(y)
    ctx.check(good, "error:format", "diagnostic cannot be shown", {"source": src[:500], "text": txt[:500]})


def sig(src):
    """Token stream without positions."""
    return [(t.type, t.value) for t in D.tokenize(src)]


def layout(ctx, rng):
    g = G.Gen(rng, size=.6)
    cmds = g.program()
    ind = rng.choice([1, 2, 4])
    base = G.Text(None, rng.choice(["min", "full"]), ind).program(cmds)
    want_ = sig(base)
    lines = base.split("\n")
    k = rng.choice(["crlf", "comment", "blank", "trail", "indent", "tab", "brackets", "block", "nonl", "cline"])
    if k == "crlf":
        src = base.replace("\n", "\r\n")
    elif k == "comment":
        src = "\n".join(l + rng.choice(["", "  # c", "# \"x", "  /* c */", " /* a /* b */ c */ # d"]) for l in lines)
    elif k == "blank":
        src = "\n".join("\n" * rng.choice([0, 0, 0, 1, 3]) + l for l in lines)
    elif k == "trail":
        src = "\n".join(l + " " * rng.choice([0, 0, 1, 5]) + "\t" * rng.choice([0, 0, 1]) for l in lines)
    elif k == "indent":
        w = rng.choice([1, 2, 3, 5, 8])
        src = "\n".join(" " * ((len(l) - len(l.lstrip())) // ind * w) + l.lstrip() for l in lines)
    elif k == "tab":
        src = "\n".join("\t" * ((len(l) - len(l.lstrip())) // ind) + l.lstrip() for l in lines)
    elif k == "brackets":
        toks = D.tokenize(base)
        pts, depth = [], 0
        for t in toks:
            if depth > 0:
                pts.append(t.span.start.offset)
            if t.type in (TT.LPAREN, TT.LBRACKET):
                depth += 1
            elif t.type in (TT.RPAREN, TT.RBRACKET):
                depth -= 1
                if depth == 0:
                    pass
        src = base
        for p in sorted(rng.sample(pts, min(len(pts), rng.choice([1, 4, 12]))), reverse=True):
            src = src[:p] + rng.choice(["\n", " # c\n      ", "\n\n  ", " /* x\ny */ ", "\r\n"]) + src[p:]
    elif k == "block":
        src = "\n".join((" " * rng.choice([0, 3]) + "/* c\n c2 */\n" if rng.random() < .2 else "") + l for l in lines)
    elif k == "cline":
        src = "\n".join((" " * rng.choice([0, 2, 7]) + "# c\n" if rng.random() < .3 else "") + l for l in lines)
    else:
        src = base.rstrip("\n") + rng.choice(["", " ", "\n\n\n", "  # end", "\n   "])
    ctx.ev("layout")
    ctx.ev("layout:" + k)
    ctx.case(src)
    nonl = lambda s: [t for t in s if t[0] != TT.NEWLINE]
    try:
        got = sig(src)
        toks = D.tokenize(src)
    except Exception as x:
        ctx.viol("layout:" + k, "layout change makes the source unreadable", {"source": src, "error": str(x)[:300]})
        return
    # blank lines may or may not yield NEWLINE tokens: compare everything else
    if nonl(got) != nonl(want_):
        ctx.viol("layout:" + k, "layout change alters the tokens", {"source": src, "base": base})
        return
    watch_tokens(ctx, src, toks, gaps=k not in ("comment",))
    try:
        m1, m2 = D.parse(D.tokenize(base), source=base), D.parse(toks, source=src)
    except Exception as x:
        ctx.viol("layout:" + k, "layout change makes the source unparsable", {"source": src, "error": str(x)[:300]})
        return
    ctx.check(Conv().module(m1) == Conv().module(m2), "layout:" + k, "layout change alters the syntax tree", {"source": src, "base": base})


BITS = ["let", "x", "=", "1", "2.5", "(", ")", "[", "]", "{", "}", ":", ",", "\n", "    ", "\n    ", "\n        ", "if", "else", "elif", "for", "in", "emit", "require", "assert", "command", "def",
        "->", "solid", "list", "<", ">", "int", "+", "-", "*", "**", "//", "and", "or", "not", "\"s\"", "'", "\"", "\"\"\"", "#c", "/*", "*/", "@", "@ui", "@meta", "match", "native", "python", "with", "return",
        "pass", "module m", "use a.b", "export", "..", "=>", "?", ".", ";", "fn", "while", "True", "0x", "\\", "\t", "\r", "\u00e9", "\u0662", "\x00", "==", "!=", "+=", "lambda", "close", "dict", "as"]


def garbage(ctx, rng):
    if rng.random() < .6:
        src = G.Text(rng, "mix", rng.choice([2, 4])).program(G.Gen(rng, size=.5).program())
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.randrange(len(src) + 1)
            k = rng.randrange(5)
            if k == 0:
                src = src[:i] + src[i + rng.choice([1, 1, 2, 9]):]
            elif k == 1:
                src = src[:i] + rng.choice(BITS) + src[i:]
            elif k == 2:
                j = rng.randrange(len(src) + 1)
                src = src[:i] + src[j:j + rng.choice([1, 5, 30])] + src[i:]
            elif k == 3:
                src = src[:i]
            else:
                src = src[:i] + chr(rng.choice([0, 7, 11, 12, 160, 0xfeff, 0x2028, 0x1d7d8, rng.randrange(32, 127)])) + src[i + 1:]
    else:
        head = rng.choice(["", "module m\n", "module m\n\ncommand A(x: int) -> solid:\n    ", "module m\ncommand A() -> int:\n    emit "])
        src = head + rng.choice(["", " "]).join(rng.choice(BITS) for _ in range(rng.choice([1, 3, 8, 25])))
    ctx.case(src)
    out = []
    for _ in range(2):
        try:
            toks = D.tokenize(src)
            try:
                m = D.parse(toks, source=src)
                out.append(("ok", plain(m)))
            except err.DslError as x:
                out.append(("parse", str(x)))
                e = x
        except err.DslError as x:
            out.append(("lex", str(x)))
            e = x
        except Exception as x:
            ctx.viol("garbage:" + type(x).__name__, "malformed source: not a DSL error", {"source": src, "error": repr(x)[:400]})
            return
    k = out[0][0]
    ctx.ev("garbage:" + k)
    ctx.check(out[0] == out[1], "garbage:unstable", "the same text is treated differently the second time", {"source": src})
    if k != "ok":
        ctx.ev("refused")
        located(ctx, src, e)
    if k != "lex":
        watch_tokens(ctx, src, toks, gaps=False)
    if k == "ok":
        # the checker must take any tree without crashing
        try:
            r = D.check(m)
            _ = r.has_errors
        except Exception as x:
            ctx.viol("check:" + type(x).__name__, "type checker crashes on a parsed program", {"source": src, "error": repr(x)[:400]})


def hlit(rng, d=1):
    k = rng.randrange(6 if d else 5)
    if k == 0:
        return rng.randrange(-50, 100)
    if k == 1:
        return rng.choice([0.5, -2.25, 100.0, -0.0, 1e-3])
    if k == 2:
        return rng.random() < .5
    if k in (3, 4):
        return rng.choice(["", "slider", "x y", "q'uote", "\u00e9", "a,b", "mm"])
    return [hlit(rng, 0) for _ in range(rng.randrange(4))]


def show(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    return repr(v)


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def hints(ctx, rng):
    """@ui and @meta hints: keys, values, merging, and no effect on the rest."""
    ps, uis = [], []
    for i in range(rng.choice([1, 2, 3])):
        t, dflt = rng.choice([("int", "3"), ("float", "2.5"), ("string", '"s"'), ("list<float>", "[1.5]"), ("bool", "True")])
        ui = {k: hlit(rng) for k in rng.sample(["widget", "label", "snap", "min", "max", "step", "group"], rng.choice([0, 1, 2, 4]))}
        has = rng.random() < .7
        txt = f"p{i}: {t}"
        if has:
            txt += " @ui(" + ", ".join(f"{k}={show(v)}" for k, v in ui.items()) + ")"
        if rng.random() < .6 or (ps and "=" in ps[-1].split(")")[-1]):
            txt += f" = {dflt}"
        ps.append(txt)
        uis.append(ui if has else None)
    keys = ["assembly.joint_kind", "assembly.surface", "operation.kind", "operation.feature_kind", "label", "note", "assembly.datums", "operation.solid", "x.y.z"]
    metas, merged = [], {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        m = {k: hlit(rng) for k in rng.sample(keys, rng.choice([1, 2, 3]))}
        metas.append("@meta(" + rng.choice(["", "\n  "]) + ", ".join(f"{k}={show(v)}" for k, v in m.items()) + ")")
        merged.update(m)
    body = rng.choice(["emit 1 + 2 * 3", "x: int = 4\n    emit x"])
    kw = rng.choice(["command", "def"])
    src = "module m\n\n" + "".join(m + "\n" for m in metas) + f"{kw} A(" + rng.choice([", ", ",\n    "]).join(ps) + f") -> int:\n    {body}\n\ncommand B() -> int:\n    emit 2\n"
    bare = "module m\n\n" + f"{kw} A(" + ", ".join(re.sub(r" @ui\(.*\)(?= = |$)", "", p) for p in ps) + f") -> int:\n    {body}\n\ncommand B() -> int:\n    emit 2\n"
    ctx.case(src)
    try:
        m = D.parse(D.tokenize(src), source=src)
        b = D.parse(D.tokenize(bare), source=bare)
    except Exception as x:
        ctx.viol("hint:refused", "hints make a program unparsable", {"source": src, "error": str(x)[:300]})
        return
    ctx.ev("hint", 1 + len(metas))
    c = m.commands[0]
    for p, u in zip(c.parameters, uis):
        got = p.ui_hint
        ctx.check((got or {}) == (u or {}) and same(list((got or {}).values()), list((u or {}).values())), "hint:ui", "@ui hint differs from what was written", {"source": src, "expected": repr(u), "got": repr(got)})
    got = c.meta_hint or {}
    ctx.check(set(got) == set(merged) and all(same(merged[k], got[k]) for k in merged), "hint:meta", "@meta hint differs from what was written", {"source": src, "expected": repr(merged), "got": repr(got)})
    ctx.check(not m.commands[1].meta_hint, "hint:leak", "@meta hint leaks to the next command", {"source": src})
    ctx.check(Conv().module(m) == Conv().module(b), "hint:effect", "hints change the rest of the program", {"source": src})


def dlit(rng, d):
    """(value, text) of a nested dict, list or scalar literal"""
    r = rng.random()
    ws = lambda: rng.choice(["", "", " ", "\n      ", " # c, }\n  "])
    if d and r < .5:
        keys = rng.sample(["a", "b1", "x_y", "size", "Kind", "z"], rng.choice([0, 1, 2, 3, 4]))
        v, t = {}, []
        for k in keys:
            kk = k + rng.choice([" 1", ".b", "", "-"]) if rng.random() < .5 else None
            val, txt = dlit(rng, d - 1)
            v[k if kk is None else kk] = val
            t.append(ws() + (k if kk is None else '"' + kk + '"') + rng.choice(["", " "]) + ":" + ws() + txt + ws())
        return v, "{" + ",".join(t) + ("," if t and rng.random() < .3 else "") + ws() + "}"
    if d and r < .75:
        xs = [dlit(rng, d - 1) for _ in range(rng.randrange(4))]
        return [x for x, _ in xs], "[" + ",".join(ws() + t for _, t in xs) + ("," if xs and rng.random() < .2 else "") + ws() + "]"
    v = hlit(rng, 0)
    return v, show(v)


def dval(n):
    k = type(n).__name__
    if k == "DictLiteral":
        return {a: dval(b) for a, b in n.entries.items()}
    if k == "ListLiteral":
        return [dval(x) for x in n.elements]
    if k == "UnaryOp":
        return -dval(n.operand)
    return n.value


def dsame(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(dsame(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(dsame(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def dicts(ctx, rng):
    """dict literals: keys in order, values, nesting, layout inside the brackets"""
    v, t = dlit(rng, 3)
    while not isinstance(v, dict):
        v, t = dlit(rng, 3)
    src = "module m\n\ncommand A() -> dict:\n    x: dict = " + t + rng.choice(["", ";"]) + "\n    emit " + rng.choice(["x", t]) + "\n"
    ctx.ev("dict")
    ctx.case(src)
    try:
        m = D.parse(D.tokenize(src), source=src)
    except Exception as e:
        ctx.viol("dict:refused", "a dict literal does not parse", {"source": src, "error": str(e)[:300]})
        return
    st = m.commands[0].body[0] if isinstance(m.commands[0].body, list) else m.commands[0].body.statements[0]
    n = getattr(st, "value", None) or getattr(st, "initializer", None)
    ctx.check(dsame(v, dval(n)), "dict:value", "a dict literal is not the tree that was written", {"source": src, "expected": repr(v), "got": repr(dval(n))})
    bad = t[:-1].rstrip()
    k = rng.randrange(4)
    if k == 0:
        bad = t[:-1]
    elif k == 1:
        bad = "{1: 2}"
    elif k == 2:
        bad = '{"a" 2}'
    else:
        bad = "{a: }"
    src = "module m\n\ncommand A() -> dict:\n    x: dict = " + bad + "\n    emit x\n"
    try:
        D.parse(D.tokenize(src), source=src)
        ctx.viol("dict:accepted", "a malformed dict literal parses", {"source": src})
    except Exception as e:
        ctx.check(isinstance(e, (D.ParserError, D.LexerError)) if hasattr(D, "ParserError") else "Error" in type(e).__name__, "dict:error", f"{type(e).__name__}: {e}", {"source": src})


GROUPS = {"dicts": (dicts, 600, 8000), "roundtrip": (roundtrip, 900, 12000), "literals": (literals, 2500, 30000), "layout": (layout, 1500, 20000), "garbage": (garbage, 2500, 60000), "hints": (hints, 500, 6000)}

if __name__ == "__main__":
    vf.main(globals())
