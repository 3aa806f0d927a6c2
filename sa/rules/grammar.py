"""The parser accepts exactly the grammar of the language and keeps every part in its role."""
from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from ..gram import *
from .. import rx
from ..tokens import token_table, truth
from .terms import M, need_method

PA = M + "parser."

# ------------------------------------------------------------- the reference

CLASSES = {
    "functor": dict(functor=True), "numeric": dict(numeric=True), "variable": dict(variable=True), "string": dict(string=True),
    "space": dict(space=True), "comment": dict(comment=True),
}
CMP = "<= >= \\== == =.. = < >"
BLOCKS = "while if for"
FORMULA = "? ! !! + - -+"
TEXTS = ("( ) [ ] { } true false if else while for include begin end <- :- : |&| ||| !! ! ? -+ not + - ** * / div mod & | " + CMP +
         " . , ; @").split()
EVERYTHING = frozenset(TEXTS) | frozenset(["functor", "numeric", "variable", "string"])

member = lambda c, x: ("member", c, x)
U_ = lambda x: member("UnaryOp", "op_" + x)
B_ = lambda x: member("BinaryOp", "op_" + x)
OPS = {
    "mult_op": {"*": B_("mul"), "/": B_("truediv"), "div": B_("floordiv"), "mod": B_("mod")},
    "add_op": {"+": B_("add"), "-": B_("sub")},
    "comp_op": {"<=": B_("le"), ">=": B_("ge"), "\\==": B_("ne"), "==": B_("eq"), "=..": B_("decompose"), "=": B_("unify"),
                "<": B_("lt"), ">": B_("gt")},
    "unary_op": {"+": U_("pos"), "-": U_("neg"), "not": U_("not")},
    "pow_op": {"**": B_("pow")}, "and_op": {"&": B_("and")}, "or_op": {"|": B_("or")},
    "boolean": {"true": True, "false": False},
    "trigger": {"+": member("Trigger", "addition"), "-": member("Trigger", "removal")},
    "goal_type": {"!": member("GoalType", "achievement"), "?": member("GoalType", "test"), "": member("GoalType", "belief")},
    "formula_type": {"": member("FormulaType", "term"), "?": member("FormulaType", "test"), "!": member("FormulaType", "achieve"),
                     "!!": member("FormulaType", "achieve_later"), "+": member("FormulaType", "add"),
                     "-": member("FormulaType", "remove"), "-+": member("FormulaType", "replace")},
}

blocks = frozenset(BLOCKS.split())
simple = EVERYTHING - blocks
bare = EVERYTHING - frozenset(FORMULA.split())


def nla(name, la, role=None):
    return ("n", name, role, la)


def chain(sub, ops, right=None):
    return seq(n(sub, "first"), star(t(ops, "op"), n(right or sub, "right")))


def bracket(a, x, b, role):
    return opt(t(a), n(x, role), star(t(","), n(x, role)), t(b))


def block_of(word, cond):
    return [t(word), t("("), n("term", cond), t(")"), t("{"), n("body", "body1"), t("}")]


formulas = star(alt(seq(nla("body_formula", blocks, "formulas"), opt(t(";"))), seq(nla("body_formula", simple, "formulas"), t(";"))))

GRAMMAR = {
    "literal": (seq(t("functor", "functor"), bracket("(", "term", ")", "terms"), bracket("[", "term", "]", "annotations")), None),
    "list": (seq(t("["), star(n("and_expr", "terms"), t(",")),
                 alt(t("]"), seq(n("and_expr", "terms"), alt(t("]"), n("linked_list_tail", "tail"))))), None),
    "linked_list_tail": (seq(t("|"), n("and_expr", "head"), alt(n("linked_list_tail", "tail"), t("]"))), None),
    "atom": (alt(t("variable", "variable"), n("literal", "value"), n("list", "value"), seq(t("("), n("term", "value"), t(")")),
                 t("numeric", "numeric"), t("true false", "boolean"), t("string", "string")), None),
    "power": (chain("atom", "**", "factor"), None),
    "factor": (alt(seq(t("+ -", "sign"), n("factor", "operand")), n("power", "value")), None),
    "product": (chain("factor", "* / div mod"), None),
    "arith_expr": (chain("product", "+ -"), None),
    "comparison": (chain("arith_expr", CMP), None),
    "not_expr": (alt(seq(t("not", "sign"), n("not_expr", "operand")), n("comparison", "value")), None),
    "and_expr": (chain("not_expr", "&"), None),
    "term": (chain("and_expr", "|"), None),
    "rule_or_belief": (seq(n("literal", "head"), opt(t(":-"), n("term", "consequence"))), None),
    "initial_goal": (seq(t("!"), n("literal", "atom")), None),
    "body": (seq(formulas, opt(nla("body_formula", simple, "formulas"))), "}"),
    "plan_body": (seq(formulas, n("body_formula", "formulas")), "."),
    "while": (seq(*block_of("while", "condition")), None),
    "for": (seq(*block_of("for", "generator")), None),
    "if_then_else": (seq(*(block_of("if", "condition") + [opt(t("else"), t("{"), n("body", "body2"), t("}"))])), None),
    "body_formula": (alt(n("while", "value"), n("for", "value"), n("if_then_else", "value"),
                         seq(t(FORMULA, "formula_type"), n("term", "term")), nla("term", bare, "term")), None),
    "event": (seq(t("+ -", "trigger"), opt(t("! ?", "goal_type")), n("literal", "head")), None),
    "plan": (seq(opt(t("@"), n("literal", "annotation")), n("event", "event"), opt(t(":"), n("term", "context")),
                 opt(t("<-"), n("plan_body", "body"))), None),
}
ITEMS = alt(seq(n("rule_or_belief", "clause"), t(".")), seq(n("initial_goal", "goals"), t(".")), seq(n("plan", "plans"), t(".")),
            seq(t("{"), t("include"), t("("), t("string", "file"), t(")"), t("}")),
            seq(t("{"), t("begin"), n("literal", "directive"), t("}"), n("block", "block"), t("}")))

PARSERS = {"parse_" + k: (k, "tok") for k in GRAMMAR}
PARSERS["parse"] = ("block", "stream")
PARSERS["parse_agent"] = ("block", "stream")
LAST = {"block": frozenset(["}"])}


class Lang(object):
    """What the rules here share: the token kinds and the compared automata (made once per run)."""

    def __init__(self, ctx):
        tab = token_table(ctx.prog)
        self.table = tab
        for tk in tab:
            tk.kind = tk.lit if tk.lit is not None else None
            if tk.kind is None:
                for k, at in CLASSES.items():
                    if all(truth(tk.attrs.get(a)) for a in at):
                        tk.kind = k
            if tk.kind is None:
                tk.kind = "?" + tk.name
        self.kinds = Kinds(tab)
        self.grammar = Grammar({k: Spec(*v) for k, v in GRAMMAR.items()}, EVERYTHING)
        self.grammar.first["block"] = EVERYTHING
        self.made = {}

    def compare(self, ctx, name):
        if name not in self.made:
            f = ctx.prog.func(PA + "parse_" + name)
            ex = Extract(ctx, f, self.kinds, PARSERS)
            self.made[name] = (f, ex, Compare(ex, self.grammar, self.grammar.specs[name], start_kinds=self.kinds.all, blocks=blocks, last=LAST))
        return self.made[name]


def lang(ctx):
    if not hasattr(ctx, "lang"):
        ctx.lang = Lang(ctx)
    return ctx.lang


def differences(ctx, f, ex, cmp_):
    for msg, p in ex.problems:
        ctx.bad(f, msg, path=p, sub="tokens")
    for word, what, e in cmp_.extra[:1]:
        ctx.bad(f, "accepts what the grammar does not allow: %s" % " ".join(word + (what,)), path=e.p, sub="accepts")
    for word, what in cmp_.missing[:1]:
        ctx.bad(f, "rejects what the grammar allows: %s" % " ".join(word + (what,)), sub="rejects")


@rule("grammar", "P15 P17", floor=800)
def grammar(ctx):
    """Each parser function accepts exactly the token sequences of its rule of the grammar: every token that is
    consumed was tested to be one that may stand there, the next token is consumed or handed on exactly once, and
    every sequence of the grammar has a path."""
    L = lang(ctx)
    for name in GRAMMAR:
        f, ex, c = L.compare(ctx, name)
        ctx.ob(c.steps, "%s: %d states compared" % (name, c.states))
        differences(ctx, f, ex, c)


@rule("agent-grammar", "P15 P17 P21", floor=60)
def agent_grammar(ctx):
    """A source is a sequence of rules, beliefs, goals, plans, include directives and begin/end blocks, each closed as
    the grammar requires, up to the end of the file; the source of a block goes up to its end directive instead.
    Nothing else is accepted without an error."""
    L = lang(ctx)
    f = ctx.prog.func(PA + "parse_agent")
    D = param(f.params[4]) if len(f.params) > 4 else param("directive")

    def mode(want):
        def only(p):
            facts = [pol if pr == ("truth", D) else not pol for pr, pol, _ in p.facts()
                     if pr == ("truth", D) or pr[0] in ("is", "eq") and D in pr[1:] and NONE in pr[1:]]
            return all(x == want for x in facts)
        return only
    for want, end, eof in ((False, None, frozenset([EOF])), (True, None, frozenset(["}"]))):
        ex = Extract(ctx, f, L.kinds, PARSERS, started=False, only=mode(want))
        g = seq(star(ITEMS), t("{"), t("end")) if want else star(ITEMS)
        c = Compare(ex, L.grammar, Spec(g, end), start_kinds=None, blocks=blocks, eof=eof, last=LAST)
        ctx.ob(c.steps, "agent: %d states compared" % c.states)
        differences(ctx, f, ex, c)


# ------------------------------------------------------------- roles of the parts

BUILDS = {
    "literal": "AstLiteral", "power": "AstBinaryOp", "factor": "AstUnaryOp", "not_expr": "AstUnaryOp",
    "rule_or_belief": "AstRule", "initial_goal": "AstGoal", "body": "AstBody", "plan_body": "AstBody", "while": "AstWhile",
    "for": "AstFor", "if_then_else": "AstIfThenElse", "body_formula": "AstFormula", "event": "AstEvent", "plan": "AstPlan",
}
# role -> field of the object that is built
FIELDS = {
    "not_expr": {"operand": "operand"}, "factor": {"operand": "operand"},
    "rule_or_belief": {"head": "head", "consequence": "consequence"}, "initial_goal": {"atom": "atom"},
    "while": {"condition": "condition", "body1": "body"}, "for": {"generator": "generator", "body1": "body"},
    "if_then_else": {"condition": "condition", "body1": "if_body", "body2": "else_body"},
    "body_formula": {"term": "term"}, "event": {"head": "head"},
    "plan": {"annotation": "annotation", "event": "event", "context": "context", "body": "body"},
}
LISTS = {"literal": ("terms", "annotations"), "list": ("terms",), "body": ("formulas",), "plan_body": ("formulas",)}
CHAINS = {"power": "pow_op", "product": "mult_op", "arith_expr": "add_op", "and_expr": "and_op", "term": "or_op"}
OPTIONAL = {"body2", "annotation", "context", "body"}


def result(p):
    """What a parser function returns besides the next token."""
    v = p.val
    return v[1][1] if v[0] == "tuple" and len(v[1]) == 2 else ("i", v, const(1))


def built(p, cls):
    return [e[4] for e in p.events if e[0] == "new" and e[4][1] == PA + cls]


def means(L, v, tok, group, kind):
    """The value v is what a token of this kind stands for."""
    want = OPS[group].get(kind)
    if want is None:
        return False
    if tok is not None and v[0] == "a" and v[1] == A(tok, "token"):
        return all(x == want for x in L.kinds.attr(kind, v[2]))
    return constant(v) == want


def constant(v):
    if v[0] == "g":
        return member(*v[1].split(".")[-2:])
    if v[0] == "c":
        return v[2]
    return v


def located(p, x, upto=None):
    v = field(p, x, "loc", upto)
    return v is not None and v[0] == "a" and v[2] == "loc" or v is not None and v[0] in ("phi", "new", "call")


def homes(paths, classes):
    """Lists that are fields of the objects made here: list -> (class, field)"""
    out = {}
    for p in paths:
        for e in p.events:
            if e[0] == "new" and e[4][1].startswith(PA):
                for fld in LISTNAMES:
                    v = field(p, e[4], fld)
                    if v and v[0] == "new":
                        out.setdefault(v, (e[4], fld))
    return out


LISTNAMES = ("terms", "annotations", "formulas", "rules", "beliefs", "goals", "plans")


def home(p, recv, homes_):
    """The (object, field) that a list belongs to."""
    if recv in homes_:
        return homes_[recv]
    if recv[0] == "phi" and isinstance(recv[2], tuple) and len(recv[2]) == 2:
        return recv[2]
    if recv[0] == "a" and recv[2] in LISTNAMES:
        return (recv[1], recv[2])
    return None


def kept(p, value, homes_):
    """Where a value is put at the end of a list: [(object, field, event index)]"""
    out = []
    for c in p.calls:
        if c.name == "append" and c.args == (value,) and c.recv is not None:
            h = home(p, c.recv, homes_)
            out.append((h[0] if h else None, h[1] if h else None, c.i))
    return out


class Roles(object):
    def __init__(self, ctx, L, name):
        self.ctx, self.L, self.name = ctx, L, name
        self.f, self.ex, self.cmp = L.compare(ctx, name)
        self.homes = homes(self.ex.paths, None)
        self.by_path = {}
        for e, it, roles, label in self.cmp.visits:
            d = self.by_path.setdefault(id(e.p), (e.p, {}))[1]
            d.setdefault(it.i, (it, set(), set()))
            d[it.i][1].update(roles)
            d[it.i][2].add(label)

    def bad(self, msg, p, sub):
        self.ctx.bad(self.f, msg, path=p, sub=sub)

    def items(self, p):
        return [x for _, x in sorted(self.by_path.get(id(p), (p, {}))[1].items())]


@rule("parse-roles", "P17 P15", floor=60)
def parse_roles(ctx):
    """What a parser function returns has every part of the source in its own role: operands left and right of the
    operator that stands between them, operators by their sign, chains grouped to the left, heads, contexts, conditions
    and bodies in their fields, arguments, annotations and formulas at the end of their list, and a location."""
    L = lang(ctx)
    for name in GRAMMAR:
        r = Roles(ctx, L, name)
        if name in CHAINS:
            chain_roles(r, CHAINS[name])
        elif name == "comparison":
            comparison_roles(r)
        elif name == "atom":
            atom_roles(r)
        elif name in ("list", "linked_list_tail"):
            list_roles(r)
        else:
            node_roles(r)
        for p in r.ex.paths:
            if p.kind != "return" or id(p) not in r.by_path:
                continue
            x = result(p)
            for e in p.events:
                if e[0] == "new" and e[4][1].startswith(PA + "Ast") and (e[4] == x or x[0] != "new") and not located(p, e[4]):
                    if name == "plan_body":
                        continue        # the plan knows where its body begins
                    r.bad("what is parsed does not know where it stands in the source", p, "loc")
    f, ex, _ = L.compare(ctx, "plan")
    g, exb, _ = L.compare(ctx, "plan_body")
    if not all(located(p, result(p)) for p in exb.paths if p.kind == "return" and result(p)[0] == "new"):
        for p in ex.paths:
            for c in p.calls_to("parse_plan_body"):
                v = ("i", c.res, const(1))
                if p.kind == "return" and not any(e[0] == "setattr" and e[1] == v and e[2] == "loc" and e[3] != NONE for e in p.events):
                    ctx.bad(f, "the body of a plan does not know where it stands in the source", path=p, sub="loc")


def chain_roles(r, group):
    """expr = first; for every operator: expr = (expr op right)"""
    for p in r.ex.paths:
        items = r.items(p)
        if not items:
            continue
        r.ctx.ob()
        acc, op, how, seg = None, None, None, "entry"
        for it, roles, labels in items:
            if it.seg != seg:
                acc, op, seg = None, None, it.seg
            if "first" in roles:
                acc = it.value
            elif "op" in roles:
                op = (it, {l[1] for l in labels if l[0] == "T"})
            elif "right" in roles:
                xs = [x for x in built(p, "AstBinaryOp") if field(p, x, "right") == it.value]
                if len(xs) != 1 or op is None:
                    r.bad("the right operand is not put to the right of the operator", p, "right")
                    break
                x = xs[0]
                left = field(p, x, "left")
                if acc is None and left[0] == "phi":
                    how = left
                elif left != acc:
                    r.bad("the left operand is not what stands to the left of the operator", p, "left")
                if not all(means(r.L, field(p, x, "operator"), op[0].tok, group, k) for k in op[1]):
                    r.bad("the operator is not the one that stands in the source", p, "operator")
                acc = x
        else:
            finish(r, p, acc, how)


def finish(r, p, acc, how):
    """What was accumulated is returned, or carried into the next iteration by the variable it is taken from there."""
    if p.kind == "return":
        v = result(p)
        if acc is None:
            if v[0] != "phi":
                r.bad("what was parsed is not returned", p, "result")
        elif v != acc:
            r.bad("what was parsed is not returned", p, "result")
        names = [v[2]] if v[0] == "phi" else []
    else:
        names = []
    if how is not None:
        names.append(how[2])
    r.carried = getattr(r, "carried", set()) | set(names)
    if p.kind == "back" and acc is not None:
        vals = [k[1] for k, v in p.path.env.items() if v == acc]
        for q in r.ex.paths:
            for n_ in {x[2] for x in [result(q)] if q.kind == "return" and x[0] == "phi"}:
                if n_ not in vals:
                    r.bad("what was parsed is lost in the next iteration", p, "result")


def comparison_roles(r):
    """a op b op c = (a op b) & (b op c)"""
    lefts, ends = set(), []
    for p in r.ex.paths:
        items = r.items(p)
        if not items:
            continue
        r.ctx.ob()
        last, comps, op, seg = None, NONE, None, "entry"
        # later iterations: what was compared so far is carried by a variable
        for it, roles, labels in items:
            if it.seg != seg:
                last, comps, op, seg = None, NONE, None, it.seg
            if "first" in roles:
                last = it.value
            elif "op" in roles:
                op = (it, {l[1] for l in labels if l[0] == "T"})
            elif "right" in roles:
                xs = [x for x in built(p, "AstBinaryOp") if field(p, x, "right") == it.value]
                if len(xs) != 1 or op is None:
                    r.bad("the right operand is not put to the right of the operator", p, "right")
                    return
                x = xs[0]
                left = field(p, x, "left")
                if not (left == last or last is None and left[0] == "phi"):
                    r.bad("a comparison is not between its neighbours", p, "left")
                if last is None and left[0] == "phi":
                    lefts.add(left[2])
                if not all(means(r.L, field(p, x, "operator"), op[0].tok, "comp_op", k) for k in op[1]):
                    r.bad("the operator is not the one that stands in the source", p, "operator")
                ands = [y for y in built(p, "AstBinaryOp") if field(p, y, "right") == x]
                if ands:
                    y = ands[0]
                    l = field(p, y, "left")
                    if constant(field(p, y, "operator")) != B_("and"):
                        r.bad("a chained comparison is no conjunction", p, "chain")
                    if last is None and l[0] != "phi" or last is not None and (l != comps or comps == NONE):
                        r.bad("a chained comparison loses its beginning", p, "chain")
                    if not located(p, y):
                        r.bad("what is parsed does not know where it stands in the source", p, "loc")
                    comps = y
                else:
                    if last is None:
                        # not the first comparison, unless the path knows that there was none
                        known = any(pr[0] in ("is", "eq") and NONE in pr[1:] and pol and any(o[0] == "phi" for o in pr[1:]) or
                                    pr[0] == "truth" and pr[1][0] == "phi" and not pol for pr, pol, _ in p.facts())
                        if not known:
                            r.bad("a chained comparison loses its beginning", p, "chain")
                    elif comps != NONE:
                        r.bad("a chained comparison loses its beginning", p, "chain")
                    comps = x
                last = it.value
        if p.kind == "return":
            v = result(p)
            want = comps if comps != NONE else last
            if want is None:
                ok = v[0] in ("phi", "or", "bool") or v[0] == "ite"
            else:
                ok = v == want or v[0] in ("or", "bool") and want in v
            if not ok:
                r.bad("what was parsed is not returned", p, "result")
        elif comps != NONE:
            vals = {k[1]: v for k, v in p.path.env.items()}
            if comps not in vals.values() or last is not None and last not in vals.values():
                r.bad("a chained comparison loses its beginning", p, "chain")
            ends.append((p, {k[1] if isinstance(k, tuple) else k: v for k, v in p.path.env.items()}, last))
    for name in lefts:
        for p, vals, last in ends:
            if last is not None and vals.get(name) != last:
                r.bad("a comparison is not between its neighbours", p, "left")


def number_of(x, lex):
    """float(lexeme), or a number written without point and exponent as an int"""
    if x[0] == "conv":
        return x[1] in ("float", "int") and x[2] == lex
    if x[0] == "call" and x[1][0] == "g" and x[1][1] in ("builtins.float", "builtins.int"):
        return x[2] == (lex,)
    # by a function of the program: what it is given is the text
    return x[0] == "call" and x[1][0] == "g" and not x[1][1].startswith("builtins.") and lex in x[2]


def atom_roles(r):
    for p in r.ex.paths:
        if p.kind != "return":
            continue
        v = result(p)
        for it, roles, labels in r.items(p):
            r.ctx.ob()
            for role in roles - {None}:
                if role == "value":
                    if v != it.value:
                        r.bad("what was parsed is not returned", p, "result")
                    continue
                cls = "AstVariable" if role == "variable" else "AstConst"
                if v[0] != "new" or v[1] != PA + cls:
                    r.bad("a %s becomes something else" % role, p, role)
                    continue
                x = field(p, v, "name" if role == "variable" else "value")
                lex = A(it.tok, "lexeme")
                ok = {"variable": x == lex,
                      "numeric": number_of(x, lex),
                      "boolean": all(means(r.L, x, it.tok, "boolean", l[1]) for l in labels),
                      "string": x[0] == "call" and x[1] == ("g", M + "parse_string") and x[2] == (lex,)}[role]
                if not ok:
                    r.bad("a %s does not keep its value" % role, p, role)


def list_roles(r):
    tails = 0
    for p in r.ex.paths:
        items = r.items(p)
        v = result(p) if p.kind == "return" else None
        rest = None
        for it, roles, labels in items:
            r.ctx.ob()
            if "terms" in roles or "head" in roles:
                k = [h for h in kept(p, it.value, r.homes) if h[2] > it.i]
                if v is not None and v[0] == "new" and v[1] == PA + "AstLinkedList" and any("tail" in x[1] for x in items):
                    if it is [x for x in items if roles & {"terms", "head"} == x[1] & {"terms", "head"}][-1][0] and field(p, v, "head") != it.value:
                        r.bad("the first element of a list is lost", p, "head")
                elif r.name == "linked_list_tail":
                    if v != it.value:
                        r.bad("the rest of a list is lost", p, "tail")
                elif len(k) != 1 or k[0][1] != "terms":
                    r.bad("an element of a list is lost", p, "terms")
            if "tail" in roles:
                tails += 1
                if v is None or v[0] != "new" or v[1] != PA + "AstLinkedList" or field(p, v, "tail") != it.value:
                    r.bad("the rest of a list is lost", p, "tail")
                if r.name == "list" and not single(p, items, r.homes):
                    r.bad("a list with ',' and '|' loses elements", p, "mixed")
        if v is not None and r.name == "list" and not any("tail" in x[1] for x in items):
            if not (v[0] == "new" and v[1] == PA + "AstList" or v[0] == "phi"):
                r.bad("a list becomes something else", p, "result")
    if not tails:
        r.bad("no list has a rest", None, "tail")


def single(p, items, homes_):
    """The path knows that no more than one element came before the bar."""
    for pr, pol, i in p.facts():
        if pr[0] in ("lt", "le", "eq", "gt", "ge") and any(t and t[0] == "len" for t in subterms(pr)):
            a, b = pr[1], pr[2]
            if pr[0] == "lt" and a == const(1) and not pol or pr[0] == "le" and b == const(1) and pol or \
                    pr[0] == "eq" and const(1) in (a, b) and pol or pr[0] == "lt" and b == const(2) and pol or pr[0] == "le" and a == const(2) and not pol:
                return True
    for pr, pol, i in p.facts():
        # asked before the element is added: nothing was there
        x = pr[1] if pr[0] == "truth" and not pol else pr[2] if pr[:2] == ("lt", const(0)) and not pol else None
        if x is not None:
            x = x[1] if x[0] == "len" else x
            if (x[0] == "new" and x[1] == "builtins.list" or x[0] == "a" and x[2] == "terms") and \
                    not any(c.recv == x and c.name in ("append", "extend", "insert") for c in p.calls):
                return True
    n_ = [x for x in items if "terms" in x[1]]
    return len(n_) == 1 and all(x[0].seg == "entry" for x in items)


def node_roles(r):
    name = r.name
    cls = BUILDS[name]
    fields, lists = FIELDS.get(name, {}), LISTS.get(name, ())
    for p in r.ex.paths:
        items = r.items(p)
        v = result(p) if p.kind == "return" else None
        have = {role: it for it, roles, _ in items for role in roles}
        for it, roles, labels in items:
            r.ctx.ob()
            for role in roles & set(lists):
                k = [h for h in kept(p, it.value, r.homes) if h[2] > it.i]
                if len(k) != 1 or k[0][1] != role or not own(p, k[0][0], cls):
                    r.bad("a part of the %s is not kept in its place" % role, p, role)
        if v is None:
            continue
        if "value" in have:
            if v != have["value"].value:
                r.bad("what was parsed is not returned", p, "result")
            continue
        if name == "rule_or_belief" and "consequence" not in have:
            if "head" in have and v != have["head"].value:
                r.bad("a belief becomes something else", p, "result")
            continue
        if not own(p, v, cls):
            if items:
                r.bad("what was parsed is not returned", p, "result")
            continue
        if v[0] != "new":
            continue
        for role, fld in fields.items():
            x = field(p, v, fld)
            if role in have:
                if x != have[role].value:
                    r.bad("the %s is not kept in its role" % fld, p, fld)
            elif x not in (NONE, None):
                r.bad("the %s is made up" % fld, p, fld)
        for it, roles, labels in items:
            kinds = {l[1] for l in labels if l[0] == "T"}
            if "functor" in roles and field(p, v, "functor") != A(it.tok, "lexeme"):
                r.bad("the functor is not the one in the source", p, "functor")
            for role, fld, group in (("sign", "operator", "unary_op"), ("trigger", "trigger", "trigger"), ("goal_type", "goal_type", "goal_type"),
                                     ("formula_type", "formula_type", "formula_type")):
                if role in roles and not all(means(r.L, field(p, v, fld), it.tok, group, k) for k in kinds):
                    r.bad("the %s is not the one that stands in the source" % fld, p, fld)
        for role, fld in (("goal_type", "goal_type"), ("formula_type", "formula_type")):
            if fld == {"event": "goal_type", "body_formula": "formula_type"}.get(name) and role not in have and items and \
                    constant(field(p, v, fld)) != OPS[fld][""]:
                r.bad("without a sign the %s is another one" % fld, p, fld)


def own(p, x, cls):
    """x is the object of this class that the function makes (or that object in a later iteration)."""
    if x is None:
        return False
    if x[0] == "new":
        return x[1] == PA + cls
    return x[0] == "phi" or x[0] == "a"
