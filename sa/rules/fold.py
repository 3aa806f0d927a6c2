"""Folding of constants, collecting of variables and operators, checks of a whole program."""
import ast
import itertools

from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, show, subterms
from ..pat import *
from ..tokens import fold as fold_const, NotConst
from .terms import M, need_method
from .code import admits

PA = M + "parser."
N_, B_, T_, L_, C_ = (PA + n + "FoldVisitor" for n in ("Numeric", "Boolean", "Term", "Logical", "Const"))
CONST = PA + "AstConst"


def short(q):
    return q.rsplit(".", 1)[-1]


# ------------------------------------------------------------ operator table

class Op(object):
    def __init__(self, enum, name, attrs, func, node):
        self.enum, self.name, self.attrs, self.func, self.node = enum, name, attrs, func, node
        self.member = G(enum + "." + name)

    def flag(self, n):
        return bool(self.attrs.get(n))


BINOPS = {ast.Pow: "pow", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Add: "add",
          ast.Sub: "sub", ast.BitAnd: "and", ast.BitOr: "or"}
CMPOPS = {ast.Lt: "lt", ast.LtE: "le", ast.Eq: "eq", ast.NotEq: "ne", ast.Gt: "gt", ast.GtE: "ge"}
UNOPS = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos"}


def meaning(prog, module, e):
    """What a function given as an expression computes: the name of the operation, its operands in order."""
    q = prog.resolve_expr(module, e)
    if q and q.startswith("operator."):
        n = q.rsplit(".", 1)[-1].strip("_")
        return n
    body = None
    if isinstance(e, ast.Lambda):
        names, body = [a.arg for a in e.args.args], e.body
    elif q and prog.canonical(q):
        try:
            f = prog.func(q)
        except AnalysisBroken:
            return None
        names = f.params
        rets = [s for s in f.node.body if isinstance(s, ast.Return)]
        if len(rets) == 1 and len([s for s in f.node.body if not isinstance(s, ast.Expr)]) == 1:
            body = rets[0].value
    if body is None:
        return None
    ids = lambda *xs: [x.id if isinstance(x, ast.Name) else None for x in xs] == names
    if isinstance(body, ast.BinOp) and type(body.op) in BINOPS and ids(body.left, body.right):
        return BINOPS[type(body.op)]
    if isinstance(body, ast.Compare) and len(body.ops) == 1 and type(body.ops[0]) in CMPOPS and ids(body.left, body.comparators[0]):
        return CMPOPS[type(body.ops[0])]
    if isinstance(body, ast.BoolOp) and len(body.values) == 2 and ids(*body.values):
        return "and" if isinstance(body.op, ast.And) else "or"
    if isinstance(body, ast.UnaryOp) and type(body.op) in UNOPS and ids(body.operand):
        return UNOPS[type(body.op)]
    if isinstance(body, ast.Call) and prog.resolve_expr(module, body.func) in ("builtins.pow", "pow") and ids(*body.args):
        return "pow"
    return "?" + ast.unparse(body)


def operator_table(ctx, enum):
    """The members of an enumeration of operators with the attributes they carry."""
    prog = ctx.prog
    cls = prog.cls(M + enum)
    oc = prog.cls(M + "Operator")
    init = oc.methods.get("__init__")
    if init is None:
        raise AnalysisBroken("Operator has no constructor")
    a = init.node.args
    names = [x.arg for x in a.args][1:] + [x.arg for x in a.kwonlyargs]
    defaults = {}
    pairs = list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for x, d in pairs:
        defaults[x.arg] = d
    stored = {}
    for p in ctx.paths(init):
        for i, e in p.find("setattr"):
            if e[1] == param(init.params[0]):
                stored[e[2]] = e[3]
    out = []
    for name, v in cls.assigns.items():
        if isinstance(v, (list, tuple)):
            v = v[-1]
        if not (isinstance(v, ast.Call) and prog.resolve_expr(cls.module, v.func) == M + "Operator"):
            continue
        given = dict(defaults)
        given.update(zip(names, v.args))
        given.update((k.arg, k.value) for k in v.keywords)
        attrs, func = {}, None
        for field, t in stored.items():
            inner = strip_conv(t)
            if inner[0] == "p":
                e = given.get(inner[1])
                if e is None:
                    raise AnalysisBroken("operator %s gives no %s" % (name, inner[1]))
                if field == "func":
                    func = None if isinstance(e, ast.Constant) and e.value is None else meaning(prog, cls.module, e) or "?"
                    attrs[field] = func
                    continue
                try:
                    attrs[field] = fold_const(prog, cls.module, e)
                except NotConst as err:
                    raise AnalysisBroken("cannot fold operator %s: %s" % (name, err))
            elif inner[0] == "c":
                attrs[field] = inner[2]
        out.append(Op(M + enum, name, attrs, func, v))
    if not out:
        raise AnalysisBroken("no operators in %s" % enum)
    return out


# what each sign of the language denotes: operation, kind
SIGNS = {
    "BinaryOp": {"**": ("pow", "numeric"), "*": ("mul", "numeric"), "/": ("truediv", "numeric"), "div": ("floordiv", "numeric"),
                 "mod": ("mod", "numeric"), "+": ("add", "numeric"), "-": ("sub", "numeric"), "=": (None, "query"),
                 "=..": (None, "query"), "<": ("lt", "comp"), "<=": ("le", "comp"), "\\==": ("ne", "comp"),
                 "==": ("eq", "comp"), ">=": ("ge", "comp"), ">": ("gt", "comp"), "&": ("and", "boolean"), "|": ("or", "boolean")},
    "UnaryOp": {"not": ("not", "boolean"), "+": ("pos", "numeric"), "-": ("neg", "numeric")},
}
MEMBER = {"BinaryOp": {"op_pow": "**", "op_mul": "*", "op_truediv": "/", "op_floordiv": "div", "op_mod": "mod", "op_add": "+",
                       "op_sub": "-", "op_unify": "=", "op_decompose": "=..", "op_lt": "<", "op_le": "<=", "op_ne": "\\==",
                       "op_eq": "==", "op_ge": ">=", "op_gt": ">", "op_and": "&", "op_or": "|"},
          "UnaryOp": {"op_not": "not", "op_pos": "+", "op_neg": "-"}}


@rule("operator-table", "P24 P18 P20", floor=60)
def operators(ctx):
    """Each operator is printed as its sign, is computed by the operation its sign denotes with the left operand first,
    and is marked as numeric, comparing, boolean or query operator as that operation demands."""
    for enum in ("BinaryOp", "UnaryOp"):
        table = operator_table(ctx, enum)
        seen = {}
        for o in table:
            where = M + enum + "." + o.name
            sign = o.attrs.get("lexeme")
            ctx.check(sign not in seen, where, "has the same sign as %s: %r" % (seen.get(sign), sign), sub="sign")
            seen[sign] = o.name
            if o.name not in MEMBER[enum]:
                raise AnalysisBroken("unknown operator %s" % o.name)
            want = MEMBER[enum][o.name]
            ctx.check(sign == want, where, "is printed as %r instead of %r" % (sign, want), sub="sign")
            func, kind = SIGNS[enum][want]
            if func is not None:
                ctx.check(o.func == func, where, "the operator %s computes %s" % (want, o.func), sub="operation")
            for k in ("numeric", "comp", "boolean"):
                ctx.check(o.flag(k + "_op") == (k == kind), where, "the operator %s is %smarked as a %s operator" %
                          (want, "" if o.flag(k + "_op") else "not ", {"comp": "comparison"}.get(k, k)), sub=k)
            ctx.check(o.flag("query_op") == (kind in ("query", "boolean")), where,
                      "the operator %s is %smarked as an operator of queries" % (want, "" if o.flag("query_op") else "not "), sub="query")
        missing = set(MEMBER[enum]) - {o.name for o in table}
        ctx.check(not missing, M + enum, "operators without a definition: %s" % ", ".join(sorted(missing)), sub="missing")


# ------------------------------------------------------------------ outcomes

class Frame(object):
    def __init__(self, p, f, cls):
        self.p, self.f, self.cls = p, f, cls
        self.n = param(f.params[1])


class Outcome(object):
    """What visiting a construct comes to: a path through the handler and the handlers it hands the construct to."""

    def __init__(self, frames):
        self.frames = frames
        self.last = frames[-1]

    @property
    def trace(self):
        return self.last.p


def self_of(f):
    return param(f.params[0])


def visitor_class(ctx, frame, t):
    """The class of a visitor that is passed on; None if it is not a visitor with the log of this one."""
    p, f = frame.p, frame.f
    if t == self_of(f):
        return frame.cls
    if t[0] == "a" and t[1] == self_of(f):
        for k in ctx.prog.mro(frame.cls):
            init = ctx.prog.classes[k].methods.get("__init__") if k in ctx.prog.classes else None
            if init is None:
                continue
            for q in ctx.paths(init):
                for i, e in q.find("setattr"):
                    if e[1] == self_of(init) and e[2] == t[2] and e[3][0] == "new":
                        new = new_fields(q, e[3])
                        if param("log") in new[2] or param("log") in dict(new[3]).values():
                            return e[3][1]
    if t[0] == "new":
        new = new_fields(p, t)
        if new is None:
            return None
        if not has_log(ctx, t[1]) or A(self_of(f), "log") in new[2] or A(self_of(f), "log") in dict(new[3]).values():
            return t[1]
    return None


def has_log(ctx, cls):
    return ctx.prog.find_method(cls, "__init__") is not None


def accept_of(ctx, frame, v):
    """v = X.accept(visitor)  ->  (X, class of the visitor)"""
    v = strip_conv(v)
    if v[0] == "call" and v[1][0] == "a" and v[1][2] == "accept" and len(v[2]) == 1:
        t = v[2][0]
        if t[0] == "kw":
            t = t[2]
        return v[1][1], visitor_class(ctx, frame, t)
    return None


def super_class(ctx, owner, dyn):
    """The class after owner in the resolution order of dyn."""
    mro = ctx.prog.mro(dyn)
    return mro[mro.index(owner) + 1] if owner in mro and mro.index(owner) + 1 < len(mro) else None


def outcomes(ctx, cls, construct, owner=None, method=None, depth=0):
    """The outcomes of visiting a construct with a visitor of a class."""
    name = method or "visit_" + construct
    key = ("outcomes", cls, construct, owner, name)
    if key in ctx.cache:
        return ctx.cache[key]
    if depth > 6:
        raise AnalysisBroken("visitors hand %s on for ever" % construct)
    f = ctx.prog.find_method(owner or cls, name)
    if f is None:
        return []
    if len(f.params) < 2:
        raise AnalysisBroken("%s takes no construct" % f.qual)
    own = f.qual.rsplit(".", 2)[0] + "." + f.qual.rsplit(".", 2)[1]
    out = []
    n, s = param(f.params[1]), self_of(f)
    for p in ctx.paths(f):
        fr = Frame(p, f, cls)
        if p.kind != "return":
            out.append(Outcome([fr]))
            continue
        v = strip_conv(p.val)
        more = None
        acc = accept_of(ctx, fr, v)
        if acc and acc[0] == n and acc[1]:
            if acc[1] != cls or depth < 6:
                more = outcomes(ctx, acc[1], construct, depth=depth + 1)
        elif v[0] == "call" and v[1][0] == "a" and v[1][2].startswith("visit_") and v[2] == (n,):
            r = v[1][1]
            if r == G("super"):
                sup = super_class(ctx, own, cls)
                more = outcomes(ctx, cls, construct, owner=sup, method=v[1][2], depth=depth + 1) if sup else None
            elif r == s:
                more = outcomes(ctx, cls, construct, method=v[1][2], depth=depth + 1)
            else:
                c = visitor_class(ctx, fr, r)
                if c:
                    more = outcomes(ctx, c, construct, method=v[1][2], depth=depth + 1)
        elif v[0] == "call" and v[1][0] == "g" and v[1][1].rpartition(".")[0] in ctx.prog.classes and len(v[2]) == 2 and v[2] == (s, n):
            k, m = v[1][1].rsplit(".", 1)
            more = outcomes(ctx, cls, construct, owner=k, method=m, depth=depth + 1)
        if more:
            out += [Outcome([fr] + o.frames) for o in more]
        else:
            out.append(Outcome([fr]))
    ctx.cache[key] = out
    return out


# kinds of operands after folding: anything that is no constant, and the constants
KINDS = ("other", "true", "false", "int", "float", "str")
CLASSES = {"true": {"builtins.bool", "builtins.int"}, "false": {"builtins.bool", "builtins.int"}, "int": {"builtins.int"},
           "float": {"builtins.float"}, "str": {"builtins.str"}, "other": set()}
for _k in CLASSES:
    CLASSES[_k] = CLASSES[_k] | {"builtins.object"}
PRED = {M + "is_number": {"int", "float"}, M + "is_string": {"str"}}


def value_kind(pred, v, kind):
    """Truth of a predicate about the value v of a constant of a kind; None if it says nothing."""
    if pred[0] == "isinst" and pred[1] == v:
        return bool(CLASSES[kind] & set(pred[2]))
    if pred[0] == "truth" and pred[1] == v and kind in ("true", "false"):
        return kind == "true"
    if pred[0] == "truth" and pred[1][0] == "call" and pred[1][1][0] == "g" and pred[1][2] == (v,) and pred[1][1][1] in PRED:
        return kind in PRED[pred[1][1][1]]
    if pred[0] in ("is", "eq") and v in pred[1:]:
        o = pred[2] if pred[1] == v else pred[1]
        t = ("call", G("builtins.type"), (v,), 0)
        if o in (TRUE, FALSE) and kind not in ("int", "float"):
            return kind == ("true" if o == TRUE else "false")
        if o in (TRUE, FALSE) and pred[0] == "is":
            return False
    if pred[0] in ("is", "eq", "in"):
        t = ("call", G("builtins.type"), (v,), 0)
        if pred[1] == t or pred[2] == t:
            o = pred[2] if pred[1] == t else pred[1]
            own = {"true": "builtins.bool", "false": "builtins.bool"}.get(kind, "builtins." + kind)
            names = {x[1] for x in subterms(o) if x and x[0] == "g"}
            return own in names
    return None


def child_kind(pred, child, kind):
    """Truth of a predicate about a folded operand of a kind."""
    if pred[0] == "isinst" and pred[1] == child:
        if kind != "other":
            return CONST in pred[2] or PA + "AstNode" in pred[2]
        return False if set(pred[2]) == {CONST} else None
    if kind == "other":
        return None
    return value_kind(pred, A(child, "value"), kind)


def op_fact(pred, pol, opv, op):
    """Does a fact exclude an operator?"""
    if pred[0] == "truth" and pred[1][0] == "a" and pred[1][1] == A(opv, "value"):
        return op.flag(pred[1][2]) != pol if pred[1][2] in op.attrs else False
    if pred[0] == "is" and NONE in pred[1:]:
        o = pred[2] if pred[1] == NONE else pred[1]
        if o == A(opv, "value", "func"):
            return (op.func is None) != pol
    return False


def consistent(ctx, o, op, table, kinds):
    """Can this outcome happen for the operator and these kinds of operands (slot -> kind)?"""
    names = [x.member for x in table]
    for fr in o.frames:
        opv = A(fr.n, "operator")
        if not admits(fr.p, opv, op.member, names):
            return False
        acc = {}
        for c in fr.p.calls:
            if c.name == "accept" and c.recv and c.recv[0] == "a" and c.recv[1] == fr.n:
                acc[c.res] = c.recv[2]
        for pred, pol, i in fr.p.facts():
            if op_fact(pred, pol, opv, op):
                return False
            for child, slot in acc.items():
                if slot in kinds:
                    t = child_kind(pred, child, kinds[slot])
                    if t is not None and t != pol:
                        return False
    return True


def effects(ctx, o):
    """-> (attribute writes on the construct, number of errors reported)"""
    sets, errors = {}, 0
    for fr in o.frames:
        log = A(self_of(fr.f), "log")
        for i, e in fr.p.find("setattr"):
            if e[1] == fr.n:
                sets[e[2]] = (fr, e[3])
        errors += len([c for c in fr.p.calls if c.recv == log and c.name in ("error", "exception")])
    return sets, errors


def describe(ctx, o, slots):
    """-> (verdict, visitors of the operands {slot: class}, problem)
    verdict: fold, keep, error or None with a problem."""
    fr = o.last
    p, n = fr.p, fr.n
    if p.kind == "raise":
        return "raise", {}, "an exception leaves the visitor"
    sets, errors = effects(ctx, o)
    v = strip_conv(p.val)
    vis = {}
    if v == n:
        for s, (f2, t) in sets.items():
            if s not in slots:
                return None, vis, "changes its %s" % s
            a = accept_of(ctx, f2, t)
            if a is None and t == A(f2.n, s):
                continue
            if a is None or a[0][0] != "a" or a[0][1] != f2.n:
                return None, vis, "puts %s in the place of its %s" % (show(t), s)
            if a[0][2] != s:
                return None, vis, "puts its %s in the place of its %s" % (a[0][2], s)
            vis[s] = a[1]
        if errors:
            return "error", vis, None
        missing = [s for s in slots if s not in sets]
        if missing:
            return None, vis, "does not visit its %s" % ", ".join(missing)
        return "keep", vis, None
    if v[0] == "new" and v[1] == CONST:
        if sets and any(not accept_of(ctx, f2, t) for s, (f2, t) in sets.items()):
            return None, vis, "changes the expression it replaces"
        val = strip_conv(field(p, v, "value"), ())
        opv = A(n, "operator", "value", "func")
        if val[0] != "call" or val[1] != opv or len(val[2]) != len(slots):
            return None, vis, "replaces the expression by %s" % show(val)
        for s, x in zip(slots, val[2]):
            if x[0] != "a" or x[2] != "value":
                return None, vis, "applies the operator to %s" % show(x)
            a = accept_of(ctx, fr, x[1])
            if a is None or a[0] != A(n, s):
                return None, vis, "applies the operator to %s in the place of its %s" % (show(x), s)
            vis[s] = a[1]
        if field(p, v, "loc") != A(n, "loc"):
            return None, vis, "the constant does not stand where the expression stood"
        return ("error" if errors else "fold"), vis, None
    return None, vis, "gives %s for the expression" % show(v)


NUM, BOOL, ANYK = {"int", "float"}, {"true", "false"}, set(KINDS)


def same_type(ks):
    return ks[0] != "other" and all(k in NUM for k in ks) or all(k in BOOL for k in ks) or all(k == "str" for k in ks)


def expected(cls, op, ks):
    """What a visitor has to do with an operator and kinds of operands -> (verdict, class of the visitor of the operands).
    The context decides the type the expression must have; the operator decides the type of the operands."""
    num, boolean, comp, query = (op.flag(x + "_op") for x in ("numeric", "boolean", "comp", "query"))
    if cls == C_:
        cls = T_
    if cls == T_:
        # an operand of any type: the operator decides
        if len(ks) == 2:
            cls = N_ if num else B_
        else:
            cls = B_ if boolean else N_
    if cls == L_ and query and not boolean:
        return "keep", T_
    if cls == N_:
        if not num:
            return "error", None
        return ("fold" if all(k in NUM for k in ks) else "keep"), N_
    if boolean:
        return ("fold" if all(k in BOOL for k in ks) else "keep"), cls
    if comp:
        return ("fold" if same_type(ks) else "keep"), T_
    return "error", None


@rule("fold-operator", "P18 P19", floor=300)
def fold_operators(ctx):
    """For every kind of context, operator and kinds of operands: constants of the type the operator takes are replaced
    by the result of the operator on them, left operand first, at the place of the expression; an operator that cannot
    stand in the context is reported; everything else is kept with its visited operands in place."""
    for cls in (N_, B_, T_, L_, C_):
        for construct, enum, slots in (("binary_op", "BinaryOp", ("left", "right")), ("unary_op", "UnaryOp", ("operand",))):
            table = operator_table(ctx, enum)
            outs = outcomes(ctx, cls, construct)
            if not outs:
                ctx.bad(cls, "does not handle %s" % construct, sub=construct)
                continue
            where = outs[0].frames[0].f
            where = cls + ".visit_" + construct
            desc = [(o, describe(ctx, o, slots)) for o in outs]
            for op in table:
                for ks in itertools.product(KINDS, repeat=len(slots)):
                    want, sub = expected(cls, op, ks)
                    live = [(o, d) for o, d in desc if consistent(ctx, o, op, table, dict(zip(slots, ks)))]
                    tag = "%s %s %s" % (short(cls).replace("FoldVisitor", ""), op.attrs.get("lexeme"), " ".join(ks))
                    ctx.ob(text=tag)
                    name = "%s of %s" % (op.name, " and ".join(ks))
                    sub_ = "%s:%s" % (construct, op.name)
                    if not live:
                        raise AnalysisBroken("no path of %s handles %s" % (where, name))
                    fails = set()
                    for o, (verdict, vis, problem) in live:
                        # an operation may fail at compile time; that is reported
                        kinds = set().union(*[FAILURES.get(x.rsplit(".", 1)[-1], ()) for x in excepts(o.last.p)])
                        if want == "fold" and verdict == "error" and kinds:
                            fails |= kinds
                            continue
                        if problem:
                            ctx.bad(where, "%s: %s" % (name, problem), path=o.trace, sub=sub_)
                            continue
                        if verdict != want:
                            ctx.bad(where, "%s is %s, but must be %s" % (name, SAID[verdict], SAID[want]), path=o.trace, sub=sub_)
                            continue
                        if want in ("fold", "keep"):
                            for s, c in vis.items():
                                if c != sub:
                                    ctx.bad(where, "%s: the %s is visited by %s instead of %s" % (name, s, short(c) if c else "something without the log", short(sub)),
                                            path=o.trace, sub=sub_)
                    if want == "fold" and enum == "BinaryOp" and op.flag("numeric_op") and CAN_FAIL.get(op.attrs.get("lexeme"), set()) - fails:
                        ctx.bad(where, "%s: an operation that cannot be computed is not reported" % name, sub=sub_ + ":failure")


# what computing with two numbers may raise, and what a handler takes
CAN_FAIL = {"/": {"zero"}, "div": {"zero"}, "mod": {"zero"}, "**": {"zero", "overflow"}}
FAILURES = {"ZeroDivisionError": {"zero"}, "OverflowError": {"overflow"}, "ArithmeticError": {"zero", "overflow"},
            "Exception": {"zero", "overflow"}, "BaseException": {"zero", "overflow"}}
SAID = {"fold": "replaced by its value", "keep": "kept", "error": "reported", "raise": "left by an exception"}


# ------------------------------------------------------- parts of constructs

def returned(o):
    """Does the outcome give the construct itself?"""
    return o.last.p.kind == "return" and strip_conv(o.last.p.val) == o.last.n


def absent(p, t):
    """Has the path established that an optional part is not there?"""
    for pred, pol, i in p.facts():
        if pred == ("truth", t) and not pol:
            return True
        if pred[0] in ("is", "eq") and set(pred[1:]) == {t, NONE} and pol:
            return True
    return False


def part_visit(ctx, o, slot, many):
    """How a part of the construct is treated: class of the visitor, or a problem."""
    last = None
    for fr in o.frames:
        for i, e in fr.p.find("setattr"):
            if e[1] == fr.n and e[2] == slot:
                last = (fr, e[3])
    if last is None:
        return None, "its %s is not visited" % slot
    fr, v = last
    if not many:
        a = accept_of(ctx, fr, v)
        if a is None:
            return None, "%s is put in the place of its %s" % (show(v), slot)
        if a[0] != A(fr.n, slot):
            return None, "%s is put in the place of its %s" % (show(v), slot)
        return a[1], None if a[1] else "its %s is visited without the log" % slot
    vals = mapped(fr.p, v, A(fr.n, slot))
    if vals is None:
        return None, "its %s are not visited one by one" % slot
    c = ()
    for x in vals:
        a = accept_of(ctx, fr, x)
        if a is None or not is_elem(a[0], A(fr.n, slot)):
            return None, "%s is put among its %s" % (show(x), slot)
        if a[1] is None:
            return None, "its %s are visited without the log" % slot
        c = a[1]
    return c, None


ONE, MANY, OPT = "one", "many", "optional"
PARTS = {
    # construct: {slot: (how many, visitor)}; None is the visitor itself
    T_: {"literal": {"terms": (MANY, T_), "annotations": (MANY, T_)}, "list": {"terms": (MANY, T_)},
         "linked_list": {"head": (ONE, T_), "tail": (ONE, T_)}, "variable": {}, "const": {}},
    L_: {"literal": {"terms": (MANY, T_), "annotations": (MANY, T_)}, "variable": {}},
    N_: {"variable": {}},
    B_: {"variable": {}},
    C_: {"agent": {"rules": (MANY, C_), "beliefs": (MANY, C_), "goals": (MANY, C_), "plans": (MANY, C_)},
         "if_then_else": {"condition": (ONE, L_), "if_body": (ONE, C_), "else_body": (OPT, C_)},
         "for": {"generator": (ONE, L_), "body": (ONE, C_)}, "while": {"condition": (ONE, L_), "body": (ONE, C_)},
         "body": {"formulas": (MANY, C_)}, "event": {"head": (ONE, T_)},
         "plan": {"annotation": (OPT, T_), "event": (ONE, C_), "context": (OPT, L_), "body": (OPT, C_)},
         "goal": {"atom": (ONE, T_)}, "rule": {"head": (ONE, T_), "consequence": (ONE, L_)},
         "list": {"terms": (MANY, T_)}, "literal": {"terms": (MANY, T_), "annotations": (MANY, T_)}, "variable": {}, "const": {}},
}


@rule("fold-parts", "P18 P19", floor=60)
def fold_parts(ctx):
    """Folding a construct visits each of its parts with the visitor of the type the part must have, puts the results in
    the places of the parts, in order, and gives back the construct itself."""
    for cls, table in PARTS.items():
        for construct, parts in table.items():
            where = cls + ".visit_" + construct
            outs = outcomes(ctx, cls, construct)
            if not outs:
                ctx.bad(where, "there is no handler")
                continue
            some = set()
            for o in outs:
                ctx.check(returned(o), where, "does not give the construct back", path=o.trace)
                sets, errors = effects(ctx, o)
                ctx.check(not errors, where, "reports an error for a construct that may stand here", path=o.trace, sub="error")
                for s in sets:
                    ctx.check(s in parts, where, "changes its %s" % s, path=o.trace, sub=s)
                for s, (how, want) in parts.items():
                    gone = how == OPT and any(absent(fr.p, A(fr.n, s)) for fr in o.frames)
                    if gone:
                        v = [t for s2, (fr, t) in sets.items() if s2 == s]
                        ctx.check(not v or v[0] == NONE or v[0] == A(o.last.n, s), where, "an absent %s becomes %s" % (s, show(v[0]) if v else ""), path=o.trace, sub=s)
                        continue
                    c, problem = part_visit(ctx, o, s, how == MANY)
                    if problem:
                        ctx.ob()
                        ctx.bad(where, problem, path=o.trace, sub=s)
                        continue
                    if c == ():
                        continue        # an empty list
                    some.add(s)
                    ctx.check(c == want, where, "its %s is visited by %s instead of %s" % (s, short(c), short(want)), path=o.trace, sub=s)
            for s in parts:
                ctx.check(s in some or any(f.construct.startswith(where) for f in ctx.findings), where, "its %s is never visited" % s, sub=s)


# constructs that can never have the type of the context
REFUSED = {N_: ("literal", "list", "linked_list"), B_: ("literal", "list", "linked_list"), L_: ("list", "linked_list")}


@rule("fold-refused", "P18", floor=30)
def fold_refused(ctx):
    """A construct, or a constant of a type, that can never have the type its context demands is reported once and kept;
    a constant of the right type is not reported."""
    for cls, cs in REFUSED.items():
        for construct in cs:
            where = cls + ".visit_" + construct
            outs = outcomes(ctx, cls, construct)
            if not outs:
                ctx.bad(where, "there is no handler")
                continue
            for o in outs:
                sets, errors = effects(ctx, o)
                ctx.check(errors >= 1, where, "is accepted where it can have no meaning", path=o.trace)
                ctx.check(returned(o) and not sets, where, "does not give the construct back", path=o.trace)
    for cls, bad in ((N_, BOOL | {"str"}), (B_, NUM | {"str"}), (L_, NUM | {"str"}), (T_, set()), (C_, set())):
        where = cls + ".visit_const"
        outs = outcomes(ctx, cls, "const")
        if not outs:
            ctx.bad(where, "there is no handler")
            continue
        for k in KINDS[1:]:
            live = []
            for o in outs:
                ok = True
                for fr in o.frames:
                    for pred, pol, i in fr.p.facts():
                        t = value_kind(pred, A(fr.n, "value"), k)
                        if t is not None and t != pol:
                            ok = False
                if ok:
                    live.append(o)
            if not live:
                raise AnalysisBroken("no path of %s handles a constant of kind %s" % (where, k))
            for o in live:
                sets, errors = effects(ctx, o)
                ctx.check(bool(errors) == (k in bad), where, "a constant of kind %s is %s" % (k, "reported" if errors else "accepted"), path=o.trace, sub=k)
                ctx.check(returned(o) and not sets, where, "does not give the constant back", path=o.trace, sub=k)


@rule("fold-formula", "P18 P19", floor=8)
def fold_formula(ctx):
    """The term of a formula is folded as a query if the formula is a plain term; after a sign it is folded as a term if it
    is a literal or a variable and reported otherwise."""
    f = need_method(ctx, C_, "visit_formula")
    where = C_ + ".visit_formula"
    n = param(f.params[1])
    kinds = [G(M + "FormulaType." + x) for x in ctx.prog.cls(M + "FormulaType").assigns]
    term = G(M + "FormulaType.term")
    seen = set()
    good = {PA + "AstLiteral", PA + "AstVariable"}
    for o in outcomes(ctx, C_, "formula"):
        fr = o.last
        p = fr.p
        sets, errors = effects(ctx, o)
        t = A(fr.n, "term")
        ctx.check(returned(o), where, "does not give the formula back", path=p)
        ctx.check(set(sets) <= {"term"}, where, "changes its %s" % ", ".join(sets), path=p)
        c, problem = part_visit(ctx, o, "term", False)
        for k in kinds:
            if not all(admits(x.p, A(x.n, "formula_type"), k, kinds) for x in o.frames):
                continue
            for cand in sorted(good) + [PA + "AstConst", PA + "AstBinaryOp", PA + "AstList"]:
                ok = True
                for pred, pol, i in p.facts():
                    if pred[0] == "isinst" and pred[1] == t and (cand in pred[2]) != pol:
                        ok = False
                    ty = ("call", G("builtins.type"), (t,), 0)
                    if pred[0] in ("is", "eq", "in") and ty in pred[1:]:
                        names = {x[1] for x in subterms(pred) if x and x[0] == "g"}
                        if (cand in names) != pol:
                            ok = False
                if not ok:
                    continue
                name = "%s %s" % (k[1].rsplit(".", 1)[-1], short(cand))
                seen.add(name)
                ctx.ob(text=name)
                if k == term:
                    if c != L_ or errors:
                        ctx.bad(where, "the term of a plain formula is %s" % (problem or ("reported" if errors else "visited by " + short(c))), path=p, sub="term")
                elif cand in good:
                    if c != T_ or errors:
                        ctx.bad(where, "the %s after a sign is %s" % (short(cand), problem or ("reported" if errors else "visited by " + short(c))), path=p, sub=short(cand))
                elif not errors:
                    ctx.bad(where, "%s after a sign is not reported" % short(cand), path=p, sub=short(cand))
    ctx.check(len(seen) >= len(kinds) * 4, where, "not every kind of formula is handled")


# ------------------------------------------------- variables and expressions

FV, FO = PA + "FindVariablesVisitor", PA + "FindOpVisitor"
COLLECT = {
    FV: {"literal": (("terms", MANY), ("annotations", MANY)), "list": (("terms", MANY),),
         "linked_list": (("head", ONE), ("tail", ONE)), "const": (), "variable": None,
         "unary_op": (("operand", ONE),), "binary_op": (("left", ONE), ("right", ONE))},
    FO: {"literal": (("terms", MANY), ("annotations", MANY)), "list": (("terms", MANY),),
         "linked_list": (("head", ONE), ("tail", ONE)), "const": (), "variable": (), "unary_op": None, "binary_op": None},
}


def part_sources(p, n, slot, many):
    """Terms that stand for the part (or its elements) on the path."""
    if not many:
        return lambda x: x == A(n, slot)
    return lambda x: is_elem(x, A(n, slot))


@rule("collect", "P19 P18 P13", floor=30)
def collect(ctx):
    """Collecting variables gives every variable of every part of a term, collecting expressions every expression that is
    not inside another: nothing is left out and nothing else is given."""
    for cls, table in COLLECT.items():
        for construct, parts in table.items():
            where = cls + ".visit_" + construct
            f = ctx.prog.find_method(cls, "visit_" + construct)
            if f is None:
                ctx.bad(where, "there is no handler")
                continue
            n = param(f.params[1])
            best = {}
            for p in ctx.paths(f):
                if p.kind == "raise":
                    ctx.bad(f, "an exception leaves the visitor", path=p)
                    continue
                fr = Frame(p, f, cls)
                ys = p.yields()
                # given one by one, or put into a list that is returned
                vals = [(i, v) for i, v, _ in ys] + [(c.i, c.args[0]) for c in p.calls if c.name == "append" and c.recv == p.val and len(c.args) == 1]
                vals.sort(key=lambda x: x[0])
                if parts is None:
                    got = [v for i, v in vals] or ([strip_conv(p.val)] if p.val != NONE else [])
                    ctx.check(got in ([n], [("tuple", (n,))], [("list", (n,))]), f, "does not give the %s itself exactly once" % construct, path=p)
                    continue
                ls = loops(p)
                used = set()
                for slot, how in parts:
                    is_part = part_sources(p, n, slot, how == MANY)
                    # every visit of the part, and what is done with its result
                    visits = [c for c in p.calls if c.name == "accept" and is_part(c.recv) and accept_of(ctx, fr, c.res) and accept_of(ctx, fr, c.res)[1] == cls]
                    ok = True
                    if how == MANY:
                        ws = walked(p, A(n, slot))
                        done = [l for lid, l in ws if l["exhausted"] is not None]
                        if not done:
                            ctx.bad(f, "not all of its %s are visited" % slot, path=p, sub=slot)
                            ctx.ob()
                            continue
                        for l in done:
                            for a, b in l["iters"]:
                                if not any(a < c.i < b for c in visits):
                                    ok = False
                        if not any(l["iters"] for l in done):
                            ctx.ob()
                            continue
                        ctx.check(ok, f, "not every one of its %s is visited" % slot, path=p, sub=slot)
                    else:
                        ctx.check(len(visits) == 1, f, "its %s is not visited" % slot, path=p, sub=slot)
                    for c in visits:
                        inner = [l for lid, l in ls.items() if l["src"] is not None and c.res in loop_sources(l["src"])]
                        gave = [v for i, v in vals if v[0] == "yieldfrom" and v[1] == c.res] + \
                            [c.res for _ in (1,) if p.val == c.res] + \
                            [d for d in p.calls if d.name == "extend" and d.recv == p.val and d.args == (c.res,)] + \
                            [e for i, e in p.find("yieldfrom") if e[1] == c.res]
                        if not inner and not gave:
                            ctx.bad(f, "what is found in its %s is dropped" % slot, path=p, sub=slot)
                            continue
                        for l in inner:
                            if l["exhausted"] is None:
                                ctx.bad(f, "not everything found in its %s is given" % slot, path=p, sub=slot)
                            for a, b in l["iters"]:
                                here = [(i, v) for i, v in vals if a < i < b]
                                if len(here) != 1 or not is_elem(here[0][1], c.res):
                                    ctx.bad(f, "something found in its %s is not given" % slot, path=p, sub=slot)
                                used |= {i for i, v in here}
                                best[slot] = True
                        if gave:
                            best[slot] = True
                other = [v for i, v in vals if i not in used and v[0] != "yieldfrom"]
                ctx.check(not other, f, "gives %s" % (show(other[0]) if other else ""), path=p)
            for slot, how in parts or ():
                ctx.check(slot in best, f, "nothing is ever found in its %s" % slot, sub=slot)


@rule("validate", "P18 P19", floor=10)
def validate(ctx):
    """A parsed program is folded as a whole with the log of the parser and given back, and every expression that is left
    in a belief, in the head of a rule or in the head of a plan is reported as an error."""
    f = ctx.prog.func(PA + "validate")
    ag, log = param(f.params[0]), param(f.params[1])
    need = {"beliefs": (), "rules": ("head",), "plans": ("event", "head")}
    reported = set()
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        folds = [c for c in p.calls if c.name == "accept" and c.recv == ag and c.args and c.args[0][0] == "new" and c.args[0][1] == C_]
        ctx.check(len(folds) == 1 and log in new_fields(p, folds[0].args[0])[2] + tuple(dict(new_fields(p, folds[0].args[0])[3]).values()),
                  f, "the program is not folded with the log of the parser", path=p, sub="fold")
        if not folds:
            continue
        tree = {folds[0].res, ag}
        ctx.check(p.val in tree, f, "the folded program is not given back", path=p, sub="result")
        for slot, tail in need.items():
            ws = [(lid, l) for t in tree for lid, l in walked(p, A(t, slot))]
            ok = [l for lid, l in ws if l["exhausted"] is not None]
            if not ok:
                ctx.ob()
                ctx.bad(f, "not all %s are checked" % slot, path=p, sub=slot)
                continue
            for l in ok:
                for a, b in l["iters"]:
                    finds = [c for c in p.calls if a < c.i < b and c.name == "accept" and c.args and c.args[0][0] == "new" and c.args[0][1] == FO
                             and any(is_elem(strip(c.recv, tail), A(t, slot)) for t in tree if strip(c.recv, tail))]
                    if not finds:
                        continue
                    c = finds[0]
                    inner = [m for lid, m in loops(p).items() if m["src"] is not None and c.res in loop_sources(m["src"])]
                    for m in inner:
                        if m["exhausted"] is None:
                            ctx.bad(f, "not every expression in %s is reported" % slot, path=p, sub=slot)
                        for x, y in m["iters"]:
                            errs = [d for d in p.calls if x < d.i < y and d.recv == log and d.name == "error"]
                            ctx.check(len(errs) == 1, f, "an expression in %s is not reported" % slot, path=p, sub=slot)
                            if errs:
                                reported.add(slot)
                                loc = errs[0].kw.get("loc")
                                ctx.check(loc is not None and loc[0] == "a" and loc[2] == "loc" and is_elem(loc[1], c.res), f,
                                          "the report about an expression in %s does not say where it stands" % slot, path=p, sub=slot + ":loc")
                # every element is looked at
                for a, b in l["iters"]:
                    ctx.check(any(a < c.i < b and c.name == "accept" and c.args and c.args[0][0] == "new" and c.args[0][1] == FO and
                                  any(strip(c.recv, tail) and is_elem(strip(c.recv, tail), A(t, slot)) for t in tree) for c in p.calls), f,
                              "an element of %s is not searched for expressions" % slot, path=p, sub=slot)
    for slot in need:
        ctx.check(slot in reported, f, "expressions in %s are never reported" % slot, sub=slot)


def strip(v, tail):
    for n in reversed(tail):
        if v is None or v[0] != "a" or v[2] != n:
            return None
        v = v[1]
    return v
