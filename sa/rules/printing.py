"""Printed forms: what the text of a construct or value consists of, and that it is read back as the same."""
import re

from ..core import rule, A, G, AnalysisBroken, is_const
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from ..tokens import token_table, fold as fold_const, NotConst
from .terms import M
from .code import R_
from .fold import operator_table

PA = M + "parser."


# --------------------------------------------------------------- text values

class Unclear(Exception):
    pass


FORMAT = re.compile(r"%(%|[-+ #0]*\d*(?:\.\d+)?[a-zA-Z])")


def lit(s):
    return [("lit", s)] if s else []


def formatted(p, fmt, args, upto):
    out, i, pos = [], 0, 0
    for m in FORMAT.finditer(fmt):
        out += lit(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == "%":
            out += lit("%")
            continue
        if i >= len(args):
            raise Unclear("format %r with %d values" % (fmt, len(args)))
        if m.group(1) == "s":
            out += text(p, args[i], upto)
        else:
            out.append(("part", args[i], "%" + m.group(1)))
        i += 1
    return out + lit(fmt[pos:])


def braces(p, fmt, args, kw, upto):
    out, n = [], 0
    import string
    for s, name, spec, conv in string.Formatter().parse(fmt):
        out += lit(s)
        if name is None:
            continue
        if spec or conv not in (None, "s"):
            raise Unclear("format %r" % fmt)
        if name == "":
            v, n = args[n], n + 1
        elif name.isdigit():
            v = args[int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unclear("format %r" % fmt)
        out += text(p, v, upto)
    return out


def items(p, v, upto):
    """The texts collected in a list on the path before an event."""
    out = []
    core = strip_conv(v, ("list", "tuple", "iter"))
    if core[0] == "tuple":
        for x in core[1]:
            out.append(text(p, x, upto))
    elif not (core[0] == "new" and core[1] == "builtins.list"):
        raise Unclear("the pieces %s" % show(v))
    for c in p.calls:
        if c.i >= upto:
            break
        if c.recv in (v, core):
            if c.name == "append":
                out.append(text(p, c.args[0], c.i))
            elif c.name == "extend" and strip_conv(c.args[0])[0] in ("tuple", "new"):
                out += items(p, c.args[0], c.i)
            elif c.name == "insert" and c.args[0] == const(0):
                out.insert(0, text(p, c.args[1], c.i))
            elif c.name in ("insert", "extend", "pop", "remove", "reverse", "sort", "clear"):
                raise Unclear("the pieces are changed by %s" % c.name)
    return out


def text(p, v, upto=None):
    """What a text value consists of: [("lit", text) | ("part", value, how) | ("indent", text)]"""
    if upto is None:
        upto = len(p.events)
    if v[0] == "c" and v[1] == "str":
        return lit(v[2])
    if v[0] == "c" and v[1] in ("int", "bool", "NoneType"):
        return lit(str(v[2]))
    if v[0] == "fmt":
        out = []
        for x in v[1]:
            out += text(p, x, upto)
        return out
    if v[0] == "bin" and v[1] == "+":
        return text(p, v[2], upto) + text(p, v[3], upto)
    if v[0] == "bin" and v[1] == "%" and v[2][0] == "c" and v[2][1] == "str":
        args = v[3][1] if v[3][0] == "tuple" else (v[3],)
        return formatted(p, v[2][2], list(args), upto)
    if v[0] == "call":
        fv, args = v[1], tuple(a for a in v[2] if not (a and a[0] == "kw"))
        kw = {a[1]: a[2] for a in v[2] if a and a[0] == "kw"}
        if fv[0] == "a" and fv[2] == "join" and fv[1][0] == "c" and len(args) == 1:
            at = next((c.i for c in p.calls if c.res == v), upto)
            xs = items(p, args[0], at)
            out = []
            for n, x in enumerate(xs):
                if n:
                    out += lit(fv[1][2])
                out += x
            return out
        if fv[0] == "a" and fv[2] == "format" and fv[1][0] == "c":
            return braces(p, fv[1][2], args, kw, upto)
        if fv[0] == "g":
            name = fv[1].rsplit(".", 1)[-1]
            if fv[1] in ("builtins.str", "str", "builtins.format") and len(args) == 1:
                return text(p, args[0], upto)
            if fv[1] == M + "asl_repr" and len(args) == 1:
                return [("part", args[0], "repr")]
            if fv[1] == M + "asl_str" and len(args) == 1:
                return [("part", args[0], "aslstr")]
            if fv[1] == M + "util.indent" and args:
                return [("indent", tuple(text(p, args[0], upto)))]
            if fv[1] in ("builtins.repr", "repr") and len(args) == 1:
                return [("part", args[0], "pyrepr")]
        if fv[0] == "a" and fv[2] == "asl_repr" and not args:
            return [("part", fv[1], "repr")]
        if fv[0] == "a" and fv[2] == "__str__" and not args:
            return text(p, fv[1], upto)
    return [("part", v, "str")]


def flat(pieces, depth=0):
    out = []
    for x in pieces:
        if x[0] == "indent":
            out += [("mark", "indent")] + flat(x[1]) + [("mark", "dedent")]
        elif x[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


# -------------------------------------------------------------------- lexing

class Lexer(object):
    """Tokens of a text, by the table of the scanner: the first kind in the table that matches."""

    def __init__(self, ctx):
        self.table = [(t, re.compile(t.regex)) for t in token_table(ctx.prog)]

    def words(self, s):
        out, i = [], 0
        while i < len(s):
            for t, r in self.table:
                m = r.match(s, i)
                if m and m.end() > i:
                    if t.name not in ("space", "comment"):
                        out.append((t.name, m.group()))
                    elif t.name == "comment":
                        out.append(("comment", m.group()))
                    i = m.end()
                    break
            else:
                out.append(("illegal", s[i]))
                i += 1
        return out


TERMS = ["a", "aB_1", ".p(a)", "X", "_", "3", "2.5", "-3", "-2.5", '"s"', "(a & b)", "(- X)", "[a]", "[a|X]", "true", "~a", "a[b]", "f(x)"]
LITERALS = ["a", "aB_1", ".p(a)", "~a", "a[b]", "f(x)"]
SAMPLES = {
    "term": TERMS, "literal": LITERALS, "signed": LITERALS + ["X"],
    "event": ["+a", "-a[b]", "+!a(x)", "-?a"], "goal": ["!a", "!f(x)"], "rule": ["a :- b", "f(X) :- (a & X)"],
    "plan": ["+!a : b <-\n  c", "@l\n+!a", "-a : true"], "query": ["a", "f(x)", "(a & b)", "not a", "true", "3"],
    "formula": ["a", "X", "(X = 3)", "+a", "-a", "-+a", "!a", "!!a", "?a", "if (a) {\n}", "while (a) {\n}", ".p(a)"],
    "body": ["a", "+a;\n-b", "!a;\nX", "if (a) {\n}", "(X = 3)"],
    "functor": ["a", "~a", ".p", "aB_1"], "variable": ["X", "_", "_X_1"], "lexeme": None, "trigger": ["+", "-"],
    "goaltype": ["", "!", "?"], "formulatype": ["", "+", "-", "-+", "!", "!!", "?"], "value": TERMS,
}


class Hole(object):
    """A place of an expected text that a part of the construct fills."""

    def __init__(self, term, kind, hows=("str",), name=None, parens=None, elem=False):
        self.term, self.kind, self.hows, self.elem = term, kind, hows, elem
        self.name = name or show(term)
        # may redundant parentheses stand around it?
        self.parens = kind == "term" if parens is None else parens

    def matches(self, piece):
        if piece[0] != "part" or piece[2] not in self.hows:
            return False
        return is_elem(piece[1], self.term) if self.elem else piece[1] == self.term


def tokens_of(ctx, pieces):
    """Tokens of the literal text and the parts between them, in order."""
    lx = lexer_of(ctx)
    out = []
    for x in flat(pieces):
        if x[0] == "lit":
            out += [("t", w) for k, w in lx.words(x[1])]
        elif x[0] == "part":
            out.append(("h", x))
    return out


def lexer_of(ctx):
    if "lexer" not in ctx.cache:
        ctx.cache["lexer"] = Lexer(ctx)
    return ctx.cache["lexer"]


def match(got, want):
    """Does the token sequence equal the expected one?  want: strings, Holes, ("opt", string).
    -> list of Holes per part, or None"""
    def go(i, j, holes):
        if j == len(want):
            return holes if i == len(got) else None
        w = want[j]
        if isinstance(w, tuple) and w[0] == "opt":
            if i < len(got) and got[i] == ("t", w[1]):
                r = go(i + 1, j + 1, holes)
                if r is not None:
                    return r
            return go(i, j + 1, holes)
        if isinstance(w, Hole):
            if i < len(got) and got[i][0] == "h" and w.matches(got[i][1]):
                r = go(i + 1, j + 1, holes + [(got[i][1], w)])
                if r is not None:
                    return r
            if w.parens and i + 2 < len(got) and got[i] == ("t", "(") and got[i + 1][0] == "h" and w.matches(got[i + 1][1]) and got[i + 2] == ("t", ")"):
                return go(i + 3, j + 1, holes + [(got[i + 1][1], w)])
            return None
        if i < len(got) and got[i] == ("t", w):
            return go(i + 1, j + 1, holes)
        return None
    return go(0, 0, [])


def said(got):
    return " ".join(x[1] if x[0] == "t" else "<%s>" % show(x[1][1]) for x in got)


def wanted(want):
    return " ".join("<%s>" % w.name if isinstance(w, Hole) else w if isinstance(w, str) else "" for w in want)


def glued(ctx, pieces, holes):
    """Do two neighbours of the text merge into other tokens than those they are alone?"""
    lx = lexer_of(ctx)
    kinds = {id(x): h for x, h in holes}
    fl = flat(pieces)
    segs = []
    for x in fl:
        if x[0] == "lit":
            segs.append([x[1]])
        elif x[0] == "part":
            h = kinds.get(id(x)) or next((h for y, h in holes if y == x), None)
            segs.append(SAMPLES.get(h.kind) if h and h.kind != "lexeme" else h.samples if h else ["a"])
    # whole words next to each other, empty texts skipped
    for i in range(len(segs) - 1):
        for l in segs[i]:
            j = i + 1
            group = [s for s in segs[j]]
            if any(s == "" for s in segs[j]) and j + 1 < len(segs):
                group += segs[j + 1]
            for r in group:
                if not l or not r:
                    continue
                if lx.words(l + r) != lx.words(l) + lx.words(r):
                    return "%r is read as %s" % (l[-8:] + r[:8], " ".join(w for k, w in lx.words(l[-8:] + r[:8])))
    return None


def count(p, coll):
    """Number of elements of a part that the path knows; None if it knows nothing."""
    for lid, l in loops(p).items():
        if l["exhausted"] is not None and l["src"] is not None and coll in loop_sources(l["src"]):
            return len(l["iters"])
    for pred, pol, i in p.facts():
        if pred in (("truth", coll), ("truth", ("len", coll))) and not pol:
            return 0
    return None


def gone(p, t, many=False):
    for pred, pol, i in p.facts():
        if pred == ("truth", t) and not pol:
            return True
        if pred[0] in ("is", "eq") and NONE in pred[1:] and t in pred[1:] and pol:
            return True
        if pred == ("truth", ("len", t)) and not pol:
            return True
    return False


def text_of(ctx, cls, f=None):
    """Paths of __str__ of a class with what they print."""
    f = f or str_method(ctx, cls)
    out = []
    if f is None:
        return f, out
    for p in ctx.paths(f, unroll=2):
        if p.kind != "return":
            continue
        v = p.val
        # str of the parent class, or a delegate
        try:
            out.append((p, text(p, v)))
        except Unclear as err:
            raise AnalysisBroken("cannot tell what %s prints: %s" % (f.qual, err))
    return f, out


def str_method(ctx, cls, name="__str__"):
    for k in ctx.prog.mro(cls):
        c = ctx.prog.classes.get(k)
        if c is None:
            continue
        if name in c.methods:
            return c.methods[name]
        v = c.assigns.get(name)
        if isinstance(v, (list, tuple)):
            v = v[-1]
        if v is not None:
            import ast
            if isinstance(v, ast.Name) and v.id in c.methods:
                return c.methods[v.id]
            raise AnalysisBroken("%s.%s is %s" % (cls, name, ast.unparse(v)))
    return None


def seq(p, coll, kind, hows, sep, name):
    n = count(p, coll)
    out = []
    for i in range(1 if n is None else n):
        if i and sep:
            out.append(sep)
        out.append(Hole(coll, kind, hows, name, elem=True))
    return out


def enclosed(p, coll, l, r, kind, hows, name, always=False):
    xs = seq(p, coll, kind, hows, ",", name)
    return [l] + xs + [r] if xs or always else []


def block(p, b, name):
    if gone(p, b) or gone(p, A(b, "formulas")) or count(p, A(b, "formulas")) == 0:
        return ["{", "}"]
    return ["{", Hole(b, "body", name=name), ("opt", ";"), "}"]


S = SELF


def nonneg(p, t):
    """Is the left operand printed without a sign in front on this path?"""
    for pred, pol, i in p.facts():
        if pred[0] == "truth" and pred[1][0] == "call" and pred[1][1][0] == "a" and pred[1][1][2] == "startswith" and not pol and \
                pred[1][2] in ((const("-"),), (("tuple", (const("-"), const("+"))),), (("tuple", (const("+"), const("-"))),)) and mentions(pred[1][1][1], t):
            return True
        if pred[0] == "isinst" and pred[1] == t and not pol and (PA + "AstConst" in pred[2] or "builtins.float" in pred[2]):
            return True
        if pred[0] == "lt" and pred[2] in (const(0), const(0.0)) and mentions(pred[1], t) and not pol:
            return True
        if pred[0] == "truth" and pred[1] == ("call", G(M + "is_number"), (t,), 0) and not pol:
            return True
    return False


def expected(ctx, cls, p):
    """The tokens of a construct as a path has to print it."""
    a = lambda n: A(S, n)
    h = lambda n, kind="term", **k: Hole(a(n), kind, name=n, **k)
    c = cls.rsplit(".", 1)[-1]
    if c == "AstLiteral":
        return [Hole(a("functor"), "functor", name="functor")] + enclosed(p, a("terms"), "(", ")", "term", ("str",), "terms") + \
            enclosed(p, a("annotations"), "[", "]", "term", ("str",), "annotations")
    if c == "AstList":
        return enclosed(p, a("terms"), "[", "]", "term", ("str",), "terms", True)
    if c == "AstLinkedList":
        return ["[", h("head"), "|", h("tail"), "]"]
    if c == "AstRule":
        return [h("head", "literal"), ":-", h("consequence")]
    if c == "AstGoal":
        return ["!", h("atom", "literal")]
    if c == "AstFormula":
        return [Hole(A(S, "formula_type", "value"), "formulatype", name="sign"), h("term", "signed", parens=False)]
    if c == "AstConst":
        return [Hole(a("value"), "value", ("repr",), "value")]
    if c == "AstVariable":
        return [Hole(a("name"), "variable", name="name")]
    if c == "AstUnaryOp":
        return ["(", lexeme(ctx, A(S, "operator", "value", "lexeme"), "UnaryOp"), h("operand"), ")"]
    if c == "AstBinaryOp":
        return ["(", h("left"), lexeme(ctx, A(S, "operator", "value", "lexeme"), "BinaryOp"), h("right"), ")"]
    if c == "AstPlan":
        out = []
        if not gone(p, a("annotation")):
            out += ["@", h("annotation", "literal")]
        out.append(h("event", "event"))
        if not gone(p, a("context")):
            out += [":", h("context")]
        if not (gone(p, a("body")) or gone(p, A(S, "body", "formulas"))):
            out += ["<-", h("body", "body")]
        return out
    if c == "AstEvent":
        return [Hole(A(S, "trigger", "value"), "trigger", name="trigger"), Hole(A(S, "goal_type", "value"), "goaltype", name="goal type"),
                h("head", "literal", parens=False)]
    if c == "AstBody":
        return seq(p, a("formulas"), "formula", ("str",), ";", "formulas")
    if c == "AstWhile":
        return ["while", "(", h("condition"), ")"] + block(p, a("body"), "body")
    if c == "AstFor":
        return ["for", "(", h("generator"), ")"] + block(p, a("body"), "body")
    if c == "AstIfThenElse":
        out = ["if", "(", h("condition"), ")"] + block(p, a("if_body"), "if_body")
        if not (gone(p, a("else_body")) or gone(p, A(S, "else_body", "formulas"))):
            out += ["else"] + block(p, a("else_body"), "else_body")
        return out
    raise AnalysisBroken(cls)


def lexeme(ctx, t, enum):
    x = Hole(t, "lexeme", name="operator", parens=False)
    x.samples = [o.attrs.get("lexeme") for o in operator_table(ctx, enum)]
    return x


def decide(ctx, f, cls, p, pieces, want):
    got = tokens_of(ctx, pieces)
    holes = match(got, want)
    if holes is None:
        ctx.ob()
        ctx.bad(f, "prints %s instead of %s" % (said(got) or "nothing", wanted(want) or "nothing"), path=p)
        return None
    ctx.ob(text="%s: %s" % (cls.rsplit(".", 1)[-1], said(got)))
    # parts of a sequence come in order, each once
    seen = []
    for x, h in holes:
        if h.elem:
            ctx.check(x[1] not in seen, f, "prints the same one of its %s twice" % h.name, path=p)
            seen.append(x[1])
    order = [e[2] for i, e in p.find("iter")]
    for coll in {h.term for x, h in holes if h.elem}:
        mine = [x[1] for x, h in holes if h.elem and h.term == coll]
        nums = [next((n for n, el in enumerate(order) if mentions(el, m)), None) for m in mine]
        ctx.check(None in nums or nums == sorted(nums), f, "prints its parts in another order", path=p, sub="order")
        rev = [l for lid, l in loops(p).items() if l["src"] is not None and coll in loop_sources(l["src"]) and
               any(t[0] == "call" and t[1] in (G("builtins.reversed"), G("builtins.sorted")) for t in subterms(l["src"]) if t)]
        ctx.check(not rev, f, "prints its parts in another order", path=p, sub="order")
    g = glued(ctx, pieces, holes)
    ctx.check(not g, f, "prints text that is read otherwise: %s" % g, path=p, sub="glue")
    return holes


CLASSES = ["AstLiteral", "AstList", "AstLinkedList", "AstRule", "AstGoal", "AstFormula", "AstConst", "AstVariable", "AstUnaryOp",
           "AstBinaryOp", "AstPlan", "AstEvent", "AstBody", "AstWhile", "AstFor", "AstIfThenElse"]


@rule("print-source", "P20", floor=60)
def print_source(ctx):
    """Every construct of a program is printed in the concrete syntax of the construct: its own parts, each once and in
    order, with the signs and separators of the grammar between them, so that neighbouring tokens stay apart when read;
    operators and bodies are enclosed, and a base with a sign is enclosed before a power."""
    for c in CLASSES:
        cls = PA + c
        f, texts = text_of(ctx, cls)
        if f is None or ctx.prog.find_method(cls, "__str__") is None and f is None:
            ctx.bad(cls, "has no printed form")
            continue
        if not texts:
            ctx.bad(f, "prints nothing")
        for p, pieces in texts:
            holes = decide(ctx, f, cls, p, pieces, expected(ctx, cls, p))
            if c == "AstBinaryOp" and holes is not None:
                power_base(ctx, f, p, pieces, A(S, "operator"), A(S, "left"), "BinaryOp.op_pow")


def power_base(ctx, f, p, pieces, op, left, member):
    names = [o.member for o in operator_table(ctx, "BinaryOp")]
    pw = G(M + member)
    val = lambda x: G(x[1][:-6]) if x[0] == "g" and x[1].endswith(".value") else x[1] if x[0] == "a" and x[2] == "value" else x
    for pred, pol, i in p.facts():
        if pred[0] in ("eq", "is") and not pol and any(val(x) == pw for x in pred[1:]):
            return
        if pred[0] in ("eq", "is") and pol and any(val(x) in names and val(x) != pw for x in pred[1:]):
            return
        if pred[0] in ("eq", "is") and any(is_const(x, "**") for x in pred[1:]) and not pol:
            return
    got = tokens_of(ctx, pieces)
    first = got[1:4]
    paren = len(first) == 3 and first[0] == ("t", "(") and first[2] == ("t", ")")
    ctx.check(paren or nonneg(p, left), f, "a base with a sign is printed without parentheses: the power binds stronger than the sign", path=p, sub="power")


@rule("print-program", "P20", floor=60)
def print_program(ctx):
    """The text of a program contains each of its rules, beliefs, goals and plans once, in order, each ended by a full stop
    that is set off from what follows."""
    cls = PA + "AstAgent"
    f, texts = text_of(ctx, cls)
    if f is None:
        ctx.bad(cls, "has no printed form")
        return
    kinds = {"rules": "rule", "beliefs": "literal", "goals": "goal", "plans": "plan"}
    for p, pieces in texts:
        got = tokens_of(ctx, pieces)
        holes, bad = [], None
        for slot, kind in kinds.items():
            coll = A(S, slot)
            mine = [x[1] for x in got if x[0] == "h" and is_elem(x[1][1], coll)]
            n = count(p, coll)
            want = 1 if n is None else n
            if len(mine) != want or len(set(x[1] for x in mine)) != len(mine):
                bad = "prints %d of %d %s" % (len(mine), want, slot)
            holes += [(x, Hole(coll, kind, elem=True)) for x in mine]
        i = 0
        while i < len(got) and not bad:
            if got[i][0] != "h" or got[i][1][2] != "str" or i + 1 >= len(got) or got[i + 1] != ("t", "."):
                bad = "prints %s" % said(got[i:i + 2])
            i += 2
        ctx.check(not bad, f, bad or "", path=p)
        if not bad:
            order = [e[2] for _, e in p.find("iter")]
            nums = {}
            for x, h in holes:
                nums.setdefault(h.term, []).append(order.index(x[1]) if x[1] in order else 0)
            seqs = {}
            for x in got:
                if x[0] == "h":
                    for slot in kinds:
                        if is_elem(x[1][1], A(S, slot)):
                            seqs.setdefault(slot, []).append(order.index(x[1][1]) if x[1][1] in order else 0)
            ctx.check(all(s == sorted(s) for s in seqs.values()), f, "prints the parts in another order", path=p, sub="order")
            g = glued(ctx, pieces, holes)
            ctx.check(not g, f, "prints text that is read otherwise: %s" % g, path=p, sub="glue")


@rule("printed-signs", "P20 P15", floor=10)
def printed_signs(ctx):
    """The sign an enumeration member is printed as is the sign that the scanner reads as that member."""
    prog = ctx.prog
    table = token_table(prog)
    fields = {"Trigger": ("trigger",), "GoalType": ("goal_type",), "FormulaType": ("formula_type",),
              "UnaryOp": ("unary_op",), "BinaryOp": ("add_op", "mult_op", "comp_op")}
    for enum, attrs in fields.items():
        cls = prog.cls(M + enum)
        ops = {o.name: o.attrs.get("lexeme") for o in operator_table(ctx, enum)} if enum in ("UnaryOp", "BinaryOp") else None
        read = set()
        for t in table:
            for a in attrs:
                m = t.attrs.get(a)
                if isinstance(m, tuple) and m[0] == "member" and m[1] == enum:
                    read.add(m[2])
                    if ops is not None:
                        sign = ops.get(m[2])
                    else:
                        v = cls.assigns.get(m[2])
                        try:
                            sign = fold_const(prog, cls.module, v[-1] if isinstance(v, (list, tuple)) else v)
                        except NotConst:
                            raise AnalysisBroken("value of %s.%s" % (enum, m[2]))
                    ctx.check(sign == t.lit, M + enum + "." + m[2], "is printed as %r but read from %r" % (sign, t.lit))
        if not read:
            raise AnalysisBroken("no token stands for a member of %s" % enum)
        silent = {"GoalType": "belief", "FormulaType": "term"}.get(enum)
        if silent:
            v = cls.assigns.get(silent)
            sign = fold_const(prog, cls.module, v[-1] if isinstance(v, (list, tuple)) else v)
            ctx.check(sign == "", M + enum + "." + silent, "is printed as %r although it has no sign" % sign)


# -------------------------------------------------------------------- values

ASTEXT = {
    M + "Literal": lambda p: [Hole(A(S, "functor"), "functor", name="functor")] +
    enclosed(p, A(S, "args"), "(", ")", "term", ("repr",), "args") + enclosed(p, A(S, "annots"), "[", "]", "term", ("repr",), "annots"),
    M + "LinkedList": lambda p: ["[", Hole(A(S, "head"), "term", ("repr",), "head"), "|", Hole(A(S, "tail"), "term", ("repr",), "tail"), "]"],
}


@rule("print-values", "P20", floor=25)
def print_values(ctx):
    """The text of a literal, list, expression or variable is its source form, and str() of it is the same text."""
    for cls in ("Literal", "LinkedList", "UnaryExpr", "BinaryExpr", "Var", "Wildcard"):
        q = M + cls
        f = str_method(ctx, q, "asl_repr")
        if f is None:
            ctx.bad(q, "has no printed form")
            continue
        s = str_method(ctx, q)
        if s is not None and s is not f:
            _, ts = text_of(ctx, q, s)
            ctx.check(all(tokens_of(ctx, t) == [("h", ("part", S, "repr"))] for p, t in ts) or
                      same_texts(ctx, q, s, f), s, "str() is not the source form")
        else:
            ctx.check(s is not None, q, "str() is not the source form")
        _, texts = text_of(ctx, q, f)
        if not texts:
            ctx.bad(f, "prints nothing")
        for p, pieces in texts:
            if cls == "Var":
                ids = [t for x in flat(pieces) if x[0] == "part" for t in subterms(x[1]) if t == ("call", G("builtins.id"), (S,), 0)]
                whole = [x for x in flat(pieces) if x[0] == "part" and x[1] == ("call", G("builtins.id"), (S,), 0) and
                         x[2] in ("str", "%d", "%x", "%X", "%i", "%o", "pyrepr")]
                ctx.check(bool(whole), f, "two variables can have the same name", path=p)
                start = flat(pieces)[0]
                lx = lexer_of(ctx)
                ctx.check(start[0] == "lit" and [k for k, w in lx.words(start[1])] == ["variable"] and "".join(w for k, w in lx.words(start[1])) == start[1],
                          f, "a variable is not printed as a variable", path=p)
                for x in flat(pieces)[1:]:
                    ctx.check(x[0] != "lit" or re.match(r"[a-zA-Z0-9_]*\Z", x[1]), f, "a variable is not printed as one name", path=p)
                continue
            if cls == "Wildcard":
                ctx.check(flat(pieces) == [("lit", "_")], f, "the wildcard is not printed as _", path=p)
                continue
            if cls == "UnaryExpr":
                want = ["(", lexeme(ctx, A(S, "unary_op", "lexeme"), "UnaryOp"), Hole(A(S, "operand"), "term", ("repr",), "operand"), ")"]
            elif cls == "BinaryExpr":
                want = ["(", Hole(A(S, "left"), "term", ("repr",), "left"), lexeme(ctx, A(S, "binary_op", "lexeme"), "BinaryOp"),
                        Hole(A(S, "right"), "term", ("repr",), "right"), ")"]
            else:
                want = ASTEXT[q](p)
            holes = decide(ctx, f, q, p, pieces, want)
            if cls == "BinaryExpr" and holes is not None:
                power_base(ctx, f, p, pieces, A(S, "binary_op"), A(S, "left"), "BinaryOp.op_pow")


def same_texts(ctx, q, s, f):
    t = lambda g: {tuple(tokens_of(ctx, x)) for p, x in text_of(ctx, q, g)[1]}
    return t(s) == t(f)


QUERIES = {"TrueQuery": lambda: ["true"], "FalseQuery": lambda: ["false"],
           "ActionQuery": lambda: [Hole(A(S, "term"), "term", ("str", "repr"), "term")],
           "TermQuery": lambda: [Hole(A(S, "term"), "term", ("str", "repr", "aslstr"), "term")],
           "AndQuery": lambda: ["(", Hole(A(S, "left"), "query", name="left"), "&", Hole(A(S, "right"), "query", name="right"), ")"],
           "OrQuery": lambda: ["(", Hole(A(S, "left"), "query", name="left"), "|", Hole(A(S, "right"), "query", name="right"), ")"],
           "NotQuery": lambda: ["not", Hole(A(S, "query"), "query", name="query", parens=True)],
           "UnifyQuery": lambda: ["(", Hole(A(S, "left"), "term", ("str", "repr"), "left"), "=", Hole(A(S, "right"), "term", ("str", "repr"), "right"), ")"],
           "Rule": lambda: [Hole(A(S, "head"), "literal", ("str", "repr"), "head"), ":-", Hole(A(S, "query"), "query", name="query")],
           "Event": lambda: [Hole(A(S, "trigger", "value"), "trigger", name="trigger"), Hole(A(S, "goal_type", "value"), "goaltype", name="goal type"),
                             Hole(A(S, "head"), "literal", ("str", "repr"), "head")]}


@rule("print-queries", "P20", floor=15)
def print_queries(ctx):
    """Rules, queries and events of a running agent are printed in the syntax of the language with the operands in place."""
    for c, want in QUERIES.items():
        f, texts = text_of(ctx, R_ + c)
        if f is None:
            ctx.bad(R_ + c, "is printed as the address of an object")
            continue
        if not texts:
            ctx.bad(f, "prints nothing")
        for p, pieces in texts:
            decide(ctx, f, R_ + c, p, pieces, want())
    f = ctx.prog.find_method(R_ + "Plan", "name")
    if f is not None:
        for p, pieces in text_of(ctx, R_ + "Plan", f)[1]:
            decide(ctx, f, R_ + "Plan", p, pieces, QUERIES["Event"]())
    f = ctx.prog.func(R_ + "plan_to_str")
    plan = param(f.params[0])
    for p, pieces in text_of(ctx, R_ + "Plan", f)[1]:
        decide(ctx, f, R_ + "Plan", p, pieces, [Hole(A(plan, "ast_plan"), "plan", name="plan"), "."])


@rule("indent", "P20", floor=3)
def indent(ctx):
    """Indenting a text puts spaces in front of its lines and changes nothing else: all lines, in order, on lines of their
    own."""
    f = ctx.prog.func(M + "util.indent")
    s = param(f.params[0])
    for p in ctx.paths(f, unroll=2):
        if p.kind != "return":
            ctx.bad(f, "does not give a text", path=p)
            continue
        src = None
        for lid, l in loops(p).items():
            if l["src"] is not None and is_lines(l["src"], s):
                src = l
        if src is None:
            ok = mentions(p.val, s) and p.val[0] in ("call", "bin") and any(is_call(t, "replace") for t in subterms(p.val) if t) or \
                any(is_call(t, "indent") for t in subterms(p.val) if t)
            if ok:
                raise AnalysisBroken("another way of indenting")
            ctx.check(False, f, "does not indent the lines of the text", path=p)
            continue
        try:
            pieces = flat(text(p, p.val))
        except Unclear as err:
            raise AnalysisBroken(str(err))
        lines, cur = [], []
        for x in pieces:
            if x[0] == "lit":
                parts = x[1].split("\n")
                for n, t in enumerate(parts):
                    if n:
                        lines.append(cur)
                        cur = []
                    if t:
                        cur.append(("lit", t))
            else:
                cur.append(x)
        if cur or lines:
            lines.append(cur)
        els = [e[2] for i, e in p.find("iter")]
        els = [next((t for t in subterms(e) if t and t[0] == "elem"), e) for e in els]
        ctx.check(len(lines) == len(els), f, "gives %d lines for %d" % (len(lines), len(els)), path=p)
        for line, el in zip(lines, els):
            line = [x for x in line if not blank(x)]
            ctx.check(line == [("part", el, "str")], f, "a line is not kept", path=p, sub="line")


def is_lines(src, s):
    src = strip_conv(src)
    return src[0] == "call" and src[1][0] == "a" and src[1][1] == s and (src[1][2] == "splitlines" and not src[2] or src[1][2] == "split" and src[2] == (const("\n"),))


def blank(x):
    if x[0] == "lit":
        return not x[1].strip(" \t")
    if x[0] == "part" and x[1][0] == "bin" and x[1][1] == "*":
        return any(t[0] == "c" and t[1] == "str" and not t[2].strip(" \t") for t in x[1][2:])
    return False


# ----------------------------------------------------- text of a single value

VKINDS = ("true", "false", "str", "tuple", "wholefloat", "fraction", "infinite", "int", "object")


def value_fact(pred, t, k):
    """Truth of a predicate for a value of a kind; None if it does not say."""
    if pred[0] in ("is", "eq") and t in pred[1:]:
        o = pred[2] if pred[1] == t else pred[1]
        if o == TRUE:
            return k == "true" if pred[0] == "is" or k not in ("wholefloat", "int") else None
        if o == FALSE:
            return k == "false" if pred[0] == "is" or k not in ("wholefloat", "int") else None
        if o == NONE:
            return False
    if pred[0] == "isinst" and pred[1] == t:
        own = {"true": {"bool", "int"}, "false": {"bool", "int"}, "str": {"str"}, "tuple": {"tuple"}, "wholefloat": {"float"},
               "fraction": {"float"}, "infinite": {"float"}, "int": {"int"}, "object": {"object"}}[k] | {"object"}
        names = {c[9:] for c in pred[2] if isinstance(c, str) and c.startswith("builtins.")}
        if k == "object" and not names:
            return None
        return bool(own & names)
    if pred[0] == "truth" and pred[1][0] == "call":
        c = pred[1]
        if c[1] == A(t, "is_integer"):
            return k == "wholefloat" if k in ("wholefloat", "fraction", "infinite") else None
        if c[1][0] == "g" and c[2] == (t,):
            n = c[1][1].rsplit(".", 1)[-1]
            if n == "isfinite":
                return k != "infinite"
            if n in ("isinf", "isnan"):
                return None if k == "infinite" else False
            if n == "is_string":
                return k == "str"
            if n == "is_number":
                return k in ("wholefloat", "fraction", "infinite", "int")
    if pred[0] in ("is", "eq") and ("call", G("builtins.type"), (t,), 0) in pred[1:]:
        o = pred[2] if pred[1][0] == "call" else pred[1]
        own = {"true": "bool", "false": "bool", "str": "str", "tuple": "tuple", "wholefloat": "float", "fraction": "float",
               "infinite": "float", "int": "int"}.get(k)
        return o == G("builtins.%s" % own) if own else None
    if pred[0] == "hasattr" and pred[1] == t and pred[2] == "asl_repr":
        return k == "object"
    if pred == ("truth", t) and k in ("true", "false"):
        return k == "true"
    return None


def escaped(p, v, t):
    """Is v the characters of the string t, escaped so that the scanner reads them back?  -> problem or None"""
    ops = []
    while v[0] == "call" and v[1][0] == "a":
        ops.append((v[1][2], v[2]))
        v = v[1][1]
    if v != t:
        raise Unclear("the characters %s" % show(v))
    ops.reverse()
    names = [o[0] for o in ops]
    bs, q = const("\\"), const('"')
    if not ops or ops[0][0] != "encode":
        return "the string is printed without escaping"
    enc = ops[0][1]
    if enc[:1] != (const("unicode_escape"),) and enc[:1] != (const("unicode-escape"),):
        return "the string is encoded as %s" % (show(enc[0]) if enc else "utf-8")
    if len(ops) < 2 or ops[1][0] != "decode":
        return "the string is printed as bytes"
    rest = ops[2:]
    quotes = [o for o in rest if o == ("replace", (q, const('\\"')))]
    if len(quotes) != 1:
        return "quotes in the string are not escaped"
    if len(rest) != 1:
        return "the string is changed by %s" % ", ".join(o[0] for o in rest if o not in quotes)
    return None


@rule("value-text", "P20", floor=30)
def value_text(ctx):
    """The text of a value: true and false, strings in quotes with every special character escaped (as they are without
    quotes for asl_str), lists in brackets with the texts of their elements in order, whole numbers without a fraction, and
    every other value in its own form."""
    for name, inner in (("asl_repr", "repr"), ("asl_str", "aslstr")):
        f = ctx.prog.func(M + name)
        t = param(f.params[0])
        seen = set()
        for p in ctx.paths(f, unroll=2):
            if p.kind != "return":
                kinds = [k for k in VKINDS if all(value_fact(pr, t, k) in (None, pol) for pr, pol, i in p.facts())]
                ctx.bad(f, "fails for %s" % ", ".join(kinds), path=p)
                continue
            try:
                pieces = flat(text(p, p.val))
            except Unclear as err:
                raise AnalysisBroken(str(err))
            handled = excepts(p)
            for k in VKINDS:
                if not all(value_fact(pr, t, k) in (None, pol) for pr, pol, i in p.facts()):
                    continue
                if handled and k == "object":
                    continue
                tried = [c for c in p.calls if c.name == "asl_repr" and c.recv == t]
                if not handled and tried and k != "object":
                    continue        # such values have no text of their own: the attribute is missing
                seen.add(k)
                ctx.ob(text="%s of %s" % (name, k))
                own = ("part", t, "repr")
                plain = [[("part", t, "str")], [("part", t, "pyrepr")]]
                bad = None
                if k in ("true", "false"):
                    bad = pieces != [("lit", k)]
                elif k == "str" and inner == "aslstr":
                    bad = pieces != [("part", t, "str")]
                elif k == "str":
                    if not (len(pieces) == 3 and pieces[0] == ("lit", '"') and pieces[2] == ("lit", '"') and pieces[1][0] == "part" and pieces[1][2] == "str"):
                        bad = True
                    else:
                        try:
                            problem = escaped(p, pieces[1][1], t)
                        except Unclear as err:
                            raise AnalysisBroken(str(err))
                        if problem:
                            ctx.bad(f, problem, path=p, sub="str")
                elif k == "tuple":
                    got = tokens_of(ctx, pieces)
                    n = count(p, t)
                    want = ["["]
                    for i in range(n or 0):
                        want += ([","] if i else []) + [Hole(t, "term", (inner,), "elements", elem=True)]
                    bad = n is None or match(got, want + ["]"]) is None
                    if not bad and inner == "repr":
                        holes = match(got, want + ["]"])
                        order = [e[2] for _, e in p.find("iter")]
                        bad = [x[1] for x, h in holes] != order
                elif k == "wholefloat":
                    whole = ("call", G("builtins.int"), (t,), 0)
                    bad = not (len(pieces) == 1 and pieces[0][0] == "part" and
                               (strip_num(pieces[0][1]) == t and pieces[0][1] != t and pieces[0][2] in ("str", "pyrepr", "%d") or pieces[0] == ("part", t, "%d")))
                elif k in ("fraction", "int"):
                    bad = pieces not in plain
                elif k == "infinite":
                    if pieces in plain and inner == "repr":
                        ctx.bad(f, "an infinite number is printed as a name", path=p, sub="infinite")
                else:
                    bad = pieces not in ([own], [("part", t, "str")])
                if bad:
                    ctx.bad(f, "%s of kind %s is printed as %s" % ("a value", k, " ".join(x[1] if x[0] == "lit" else "<%s>" % show(x[1]) for x in pieces)), path=p, sub=k)
        for k in VKINDS:
            if k not in seen:
                ctx.bad(f, "no text for values of kind %s" % k, sub=k)


def strip_num(v):
    while v[0] == "conv" and v[1] in ("int",) or v[0] == "call" and v[1] == G("builtins.int"):
        v = v[2] if v[0] == "conv" else v[2][0]
    return v
