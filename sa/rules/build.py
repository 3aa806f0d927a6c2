"""Building agents from sources and exchanging plans."""
import ast

from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import M, need_method
from .queries import aslerr, copied
from .agents import in_order, truthy, eqf, ADD, REM, GOALS, AG
from .code import BT, BQ, BI, FOLD, INSTR
from ..tokens import token_table, fold, NotConst

EN = R_ + "Environment."
PLAN, RULE = R_ + "Plan", R_ + "Rule"
P_ = M + "parser."
TS, SS = M + "lexer.TokenStream", M + "StringSource"
AGENTS = A(SELF, "agents")
MARGS = A(TERM, "args")
TEXT = ("i", MARGS, const(0))


def visitor(v, part, cls):
    """The visitor object when v = part.accept(cls(...)), else None."""
    if v is not None and v[0] == "call" and v[1] == ("a", part, "accept") and len(v[2]) == 1 and \
            v[2][0][0] == "new" and v[2][0][1] == cls:
        return v[2][0]
    return None


def absent(p, v):
    return v == NONE or truthy(p, v) is False


def present(p, v):
    return truthy(p, v) is True or any(pr[0] in ("is", "eq") and set(pr[1:]) == {v, NONE} and not pol for pr, pol, _ in p.facts())


def check_plan(ctx, f, p, plan, tree, actions, logs, upto, table=None):
    """plan has every part of the syntax tree, compiled with one table of variables.  -> the logs used"""
    F = lambda n: field(p, plan, n, upto)
    ev = A(tree, "event")
    for n, want in (("trigger", A(ev, "trigger")), ("goal_type", A(ev, "goal_type")), ("annotation", A(tree, "annotation")), ("ast_plan", tree)):
        if F(n) != want:
            ctx.bad(f, "the %s of a plan is not the one of its source" % n.replace("ast_plan", "source form"), path=p, sub=n)
    v = visitor(F("head"), A(ev, "head"), BT)
    if v is None:
        ctx.bad(f, "the head of a plan is not the one of its source", path=p, sub="head")
        return
    table_ = field(p, v, "variables")
    if table_[0] != "new" or table is not None and not table(table_):
        ctx.bad(f, "a plan shares its variables with something else", path=p, sub="variables")
    cx = F("context")
    src = A(tree, "context")
    q = visitor(cx, src, BQ)
    if q is not None:
        if field(p, q, "variables") != table_:
            ctx.bad(f, "the context of a plan does not share the variables of its head", path=p, sub="variables")
        if not actions(field(p, q, "actions")):
            ctx.bad(f, "the context of a plan is compiled for other actions", path=p, sub="actions")
        logs.add(field(p, q, "log"))
        if not present(p, src):
            ctx.bad(f, "compiles a context that is not there", path=p, sub="context")
    elif not (cx[0] == "new" and cx[1] == R_ + "TrueQuery") or not absent(p, src):
        ctx.bad(f, "the context of a plan is not the one of its source", path=p, sub="context")
    body = F("body")
    if body[0] != "new" or body[1] != INSTR or field(p, body, "f", upto) != G(R_ + "noop"):
        ctx.bad(f, "the code of a plan does not start with an instruction of its own", path=p, sub="body")
        return
    src = A(tree, "body")
    cs = [c for c in p.calls[:] if c.i < upto and c.name == "accept" and c.recv == src]
    if absent(p, src):
        if cs:
            ctx.bad(f, "compiles a body that is not there", path=p, sub="body")
        return
    if not present(p, src):
        ctx.bad(f, "compiles a body that is not there", path=p, sub="body")
    bs = [visitor(c.res, src, BI) for c in cs]
    if len(bs) != 1 or bs[0] is None:
        ctx.bad(f, "the body of a plan is not compiled", path=p, sub="body")
        return
    b = bs[0]
    if p.flow.newfields.get(b, {}).get("tail") != body:
        ctx.bad(f, "the code of a body is not put behind the first instruction of the plan", path=p, sub="body")
    if field(p, b, "variables") != table_:
        ctx.bad(f, "the body of a plan does not share the variables of its head", path=p, sub="variables")
    if not actions(field(p, b, "actions")):
        ctx.bad(f, "the body of a plan is compiled for other actions", path=p, sub="actions")
    logs.add(field(p, b, "log"))


def throws(p, log):
    return [c.i for c in p.calls if c.name == "throw" and c.recv == log]


def last_use(p, log, upto):
    """Last event before upto that may record an error in the log."""
    r = -1
    vis = {e[4] for e in p.events if e[0] == "new" and any(x == log for x in e[2]) or e[0] == "new" and log in dict(e[3]).values()}
    for i, e in enumerate(p.events[:upto]):
        if e[0] == "call":
            if e[1] == ("a", log, "throw"):
                continue
            if any(x == log or x in vis for x in e[2]) or e[1][0] == "a" and e[1][1] in vis:
                r = i
    return r


def reported(ctx, f, p, log, upto, what):
    ts = [t for t in throws(p, log) if t < upto]
    if log == NONE or log[0] != "new" or not ts or max(ts) < last_use(p, log, upto):
        ctx.bad(f, "%s although errors were recorded" % what, path=p, sub="errors")


# ------------------------------------------------------------ plan exchange

@rule("tell-how", "P11 P15", floor=10)
def tell_how(ctx):
    """A plan received as text is parsed as exactly one plan followed by a full stop, folded and compiled like a plan
    of the source, and added once, after every recorded error was raised; otherwise nothing is added."""
    f = ctx.prog.func(AG + "_tell_how")
    added = rejected = short = False
    for p in ctx.paths(f):
        ctx.ob()
        adds = [c for c in p.calls if c.name == "add_plan"]
        if p.kind == "raise":
            if adds:
                ctx.bad(f, "a plan is added although its text is reported as an error", path=p, sub="rejected")
            if "StopIteration" in excepts(p):
                short = True
            continue
        if p.kind != "return":
            continue
        ps = [c for c in p.calls if c.name == "parse_plan" and c.qual.startswith(P_)]
        if "StopIteration" in excepts(p):
            ctx.bad(f, "a text that ends too early is not reported", path=p, sub="short")
            continue
        if len(ps) != 1 or len(ps[0].args) != 3:
            ctx.bad(f, "the text is not parsed as one plan", path=p, sub="parse")
            continue
        tok, toks, log = ps[0].args
        ft = new_fields(p, toks)
        src = ft and new_fields(p, ft[2][0])
        if not ft or not ft[1].startswith(M + "lexer.") or ft[2][1] != log or not src or src[1] != SS or src[2][1:2] != (TEXT,):
            ctx.bad(f, "another text than the one received is parsed", path=p, sub="text")
        end, tree = ("i", ps[0].res, const(0)), ("i", ps[0].res, const(1))
        if eqf(p, A(end, "lexeme"), const(".")) is not True:
            ctx.bad(f, "text after the plan is ignored", path=p, sub="rest")
        folds = [c for c in p.calls if c.name == "accept" and c.recv == tree and visitor(c.res, tree, FOLD)]
        if len(folds) != 1 or field(p, folds[0].args[0] if folds[0].args else NONE, "log") != log:
            ctx.bad(f, "the plan is not folded and checked like a plan of the source", path=p, sub="fold")
            continue
        folded = folds[0].res
        if len(adds) != 1 or adds[0].recv != SELF:
            ctx.bad(f, "the plan is not added to the receiver exactly once", path=p, sub="add")
            continue
        added = True
        plan = adds[0].args[0]
        if plan[0] != "new" or plan[1] != PLAN:
            ctx.bad(f, "something else than the plan is added", path=p, sub="add")
            continue
        logs = {log}
        own = A(SELF, "actions")
        std = truthy(p, own) is False or eqf(p, own, NONE) is True
        check_plan(ctx, f, p, plan, folded, lambda v: v == (G(M + "stdlib.actions") if std else own), logs, adds[0].i)
        if len(logs) != 1:
            ctx.bad(f, "errors of the plan are recorded where nobody looks", path=p, sub="log")
        fold_end = [t for t in throws(p, log) if t > folds[0].i]
        builds = [c.i for c in p.calls if c.name == "accept" and mentions(c.recv, folded)]
        if not fold_end or builds and min(fold_end) > min(builds):
            ctx.bad(f, "the plan is compiled although its text has errors", path=p, sub="errors")
        reported(ctx, f, p, log, adds[0].i, "the plan is added")
        if any(c.recv is not None and c.name in ("clear", "pop", "remove") and mentions(c.recv, A(SELF, "plans")) for c in p.calls):
            ctx.bad(f, "adding a plan removes others", path=p, sub="keep")
    for p in ctx.paths(f):
        if p.kind == "raise":
            ps = [c for c in p.calls if c.name == "parse_plan"]
            if ps and eqf(p, A(("i", ps[0].res, const(0)), "lexeme"), const(".")) is False:
                rejected = True
    if not added:
        ctx.bad(f, "no plan is ever added", sub="add")
    if not rejected:
        ctx.bad(f, "text after the plan is never reported", sub="rest")
    if not short:
        ctx.bad(f, "a text that ends too early is not reported as an error", sub="short")


def nested(p, root):
    """Elements of the elements of root.values() (or of the items): [(element, start, end, complete)]"""
    out = []
    for lid, l in loops(p).items():
        s = copied(l["src"]) if l["src"] is not None else None
        if s is None:
            continue
        outer = None
        if is_call(s, "values") and s[1][1] == root or is_call(s, "items") and s[1][1] == root:
            for a, b in l["iters"]:
                outer = p.events[a][2]
                grp = outer
                if is_call(s, "items"):
                    grp = outer[1][1] if outer[0] == "tuple" else ("i", outer, const(1))
                inner = [(k, m) for k, m in loops(p).items() if m["src"] is not None and copied(m["src"]) in (grp, ("i", root, ("key", s, lid)))
                         and a < m["start"] < b]
                out.append((grp, a, b, l["exhausted"] is not None, inner))
        elif s == root:
            # over the keys
            for a, b in l["iters"]:
                key = p.events[a][2]
                grp = ("i", root, key)
                inner = [(k, m) for k, m in loops(p).items() if m["src"] is not None and copied(m["src"]) == grp and a < m["start"] < b]
                out.append((grp, a, b, l["exhausted"] is not None, inner))
    return out


def is_sender(v):
    """The argument (or its name) of an annotation of the message, as far as the value tells."""
    return any(t and t[0] == "i" and t[2] == const(0) and t[1][0] == "a" and t[1][2] == "args" and t[1][1][0] == "elem" and
               copied(t[1][1][1]) == A(TERM, "annots") for t in subterms(v))


def checked_source(p, v):
    """Every annotation whose argument is taken was found to be a source annotation."""
    els = {t[1][1] for t in subterms(v) if t and t[0] == "i" and t[1][0] == "a" and t[1][2] == "args" and t[1][1][0] == "elem"}
    ok = lambda el, q: any(pr[0] == "eq" and set(pr[1:]) == {A(el, "functor"), const("source")} and pol for pr, pol, _ in q.facts())
    return all(ok(el, p) or el not in [e[2] for e in p.events if e[0] == "iter"] for el in els)


def sender(p):
    """Did the path find a source annotation?  -> True / False / None (no annotation read)"""
    for pr, pol, i in reversed(p.facts()):
        if pr[0] in ("is", "eq") and NONE in pr[1:]:
            o = pr[2] if pr[1] == NONE else pr[1]
            if any(is_sender(c) for c in carried(p, o)):
                return not pol
        if pr[0] == "truth" and pr[1][0] in ("a", "i", "phi") and any(is_sender(c) for c in carried(p, pr[1])):
            return pol
    for pr, pol, i in p.facts():
        if pr[0] == "eq" and const("source") in pr[1:] and pol:
            return True
    return False


@rule("ask-how", "P11", floor=60)
def ask_how(ctx):
    """Every plan of the library whose head has the requested functor, and no other, is sent once in source form,
    as a plan that is told, to the agent named by the source annotation of the question; without source annotation
    the question is an error."""
    f = ctx.prog.func(AG + "_ask_how")
    PL = A(SELF, "plans")
    sent = skipped = answered = False
    raised = False
    for p in ctx.paths(f):
        src = sender(p)
        calls = [c for c in p.calls if c.name == "call" and c.recv is not None and c.args[:2] == (ADD, GOALS["tellHow"])]
        others = [c for c in p.calls if c.name == "call" and c.recv is not None and c not in calls]
        if p.kind == "raise":
            if not src:
                raised = True
                if not aslerr(p.val):
                    ctx.bad(f, "a question without sender is not an error of the program", path=p, sub="sender")
            if calls:
                ctx.bad(f, "some plans are sent before the error is found", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        ctx.ob()
        if not src:
            ctx.bad(f, "a question without sender is answered", path=p, sub="sender")
            continue
        if others:
            ctx.bad(f, "an answer is sent as something else than a plan that is told", path=p, sub="answer")
        walks = nested(p, PL)
        for el in [e[2] for e in p.events if e[0] == "iter" and e[2] and e[2][0] == "elem" and copied(e[2][1]) == A(TERM, "annots")]:
            took = any(t == ("i", A(el, "args"), const(0)) for e in p.events for x in e[1:] if isinstance(x, tuple) for t in subterms(x))
            if took and not checked_source(p, ("i", A(el, "args"), const(0))):
                ctx.bad(f, "another annotation than the source is taken for the sender", path=p, sub="sender")
        outers = [l for l in loops(p).values() if l["src"] is not None and
                  (copied(l["src"]) == PL or is_call(copied(l["src"]), "values") and copied(l["src"])[1][1] == PL or
                   is_call(copied(l["src"]), "items") and copied(l["src"])[1][1] == PL)]
        if not outers or any(l["exhausted"] is None for l in outers):
            ctx.bad(f, "does not look at every plan", path=p, sub="all")
            continue
        # which plans are chosen
        chosen, boxes = [], set()
        for grp, a, b, done, inner in walks:
            # the third part of the key of a group is the functor of its plans
            kf = None
            for pr, pol, i in p.facts():
                for k, o in ((pr[1], pr[2]), (pr[2], pr[1])) if pr[0] in ("eq", "is") else ():
                    if k[0] == "i" and k[2] == const(2) and requested(p, o) and \
                            (k[1] == p.events[a][2] or p.events[a][2][0] == "tuple" and k[1] == p.events[a][2][1][0]):
                        kf = pol
            if kf is False and not inner:
                skipped = True
                continue
            if not inner or any(m["exhausted"] is None for _, m in inner):
                if not (p.events[a][2][0] == "tuple" and truthy(p, grp) is False):
                    ctx.bad(f, "does not look at every plan of a kind", path=p, sub="all")
                continue
            for _, m in inner:
                for x, y in m["iters"]:
                    el = p.events[x][2]
                    fn = kf
                    for pr, pol, i in p.facts():
                        if pr[0] in ("eq", "is") and A(A(el, "head"), "functor") in pr[1:]:
                            o = pr[2] if pr[1] == A(A(el, "head"), "functor") else pr[1]
                            if requested(p, o):
                                fn = pol
                    took = [c for c in p.calls if x < c.i < y and c.name in ("append", "add") and c.args == (el,)]
                    direct = [c for c in calls if x < c.i < y and carries(p, c, el)]
                    if took or direct:
                        sent = True
                        answered = answered or bool(direct)
                        if fn is not True:
                            ctx.bad(f, "a plan is sent that was not asked for", path=p, sub="which")
                        boxes |= {box_of(c.recv) for c in took}
                        chosen.append(el)
                    else:
                        skipped = True
                        if fn is not False:
                            ctx.bad(f, "a plan that was asked for is not sent", path=p, sub="which")
        # what is sent
        boxes = {e[1] if e else box for box in boxes for e in [e for e in p.events if e[0] == "setitem" and e[3] == box] or [None]}
        for box in boxes:
            outs = [l for l in loops(p).values() if l["src"] is not None and unvalues(copied(l["src"])) == box]
            if not outs:
                if truthy(p, box) is False:
                    continue       # a contradiction the engine keeps: nothing in a box that got something
                ctx.bad(f, "the plans that were asked for are not sent", path=p, sub="sent")
            for l in outs:
                if l["exhausted"] is None or not in_order(l):
                    ctx.bad(f, "not all plans that were asked for are sent", path=p, sub="sent")
                for a, b in l["iters"]:
                    el = p.events[a][2]
                    parts = {el} | set(el[1] if el[0] == "tuple" else ())
                    inner = [m for m in loops(p).values() if m["src"] is not None and copied(m["src"]) in parts and a < m["start"] < b]
                    if is_grouped(p, box) and not inner or any(m["exhausted"] is None or not in_order(m) for m in inner):
                        ctx.bad(f, "not all plans that were asked for are sent", path=p, sub="sent")
                    spans = [(x, y, p.events[x][2]) for m in inner for x, y in m["iters"]] if inner else \
                        ([(a, b, el)] if not is_grouped(p, box) else [])
                    for x, y, e in spans:
                        answered = check_answer(ctx, f, p, e, x, y, calls, src) or answered
        for c in calls:
            if not any(carries(p, c, e) for e in [p.events[i][2] for i, ev in enumerate(p.events) if ev[0] == "iter" and ev[2]]):
                ctx.bad(f, "something else than the source form of a plan is sent", path=p, sub="text")
    if not sent or not answered:
        ctx.bad(f, "no plan is ever sent", sub="sent")
    if not skipped:
        ctx.bad(f, "every plan is sent", sub="which")
    if not raised:
        ctx.bad(f, "a question without sender is never reported", sub="sender")


def check_answer(ctx, f, p, e, x, y, calls, src):
    cs = [c for c in calls if x < c.i < y]
    rl = [l for l in loops(p).values() if l["src"] is not None and x < l["start"] < y]
    reached = [l for l in rl if l["iters"]]
    if not cs:
        lists = any(pol and pr[0] == "truth" and is_call(pr[1], "is_list") for pr, pol, _ in p.facts())
        if not rl or reached or not lists and not any(c.recv in [l["src"] for l in rl] and c.name == "append" for c in p.calls):
            ctx.bad(f, "a plan that was asked for is not sent", path=p, sub="sent")
        return False
    named = False
    for c in cs:
        if not carries(p, c, e):
            ctx.bad(f, "another plan than the chosen one is sent", path=p, sub="text")
        r = c.recv
        if r[0] == "elem" and r[1][0] == "new":
            vals = [k.args[0] for k in p.calls if k.recv == r[1] and k.name == "append" and k.i < c.i]
        else:
            vals = [r]
        for v in vals:
            # the sender is a plain name: no list, and no atom either
            asked = [hit(p, k) for n in ("is_atom", "is_list") for k in p.calls_to(n) if k.i < c.i and any(is_sender(x) for x in senders(p, k.args[0]))]
            if True not in asked:
                named = True
            who = senders(p, v)
            if not (v[0] == "i" and v[1] == A(A(SELF, "env"), "agents") and any(is_sender(x) for x in who)):
                ctx.bad(f, "the answer goes to somebody else than the asking agent", path=p, sub="receiver")
            elif v[2][0] == "a" and v[2][2] == "functor" and is_call(v[2][1], "grounded"):
                if [hit(p, k) for k in p.calls_to("is_atom") if k.args == (v[2][1],)][-1:] != [True]:
                    ctx.bad(f, "takes the name of a sender that is no atom", path=p, sub="receiver")
            elif [hit(p, k) for k in p.calls_to("is_atom") if k.args == (v[2],)][-1:] == [True]:
                ctx.bad(f, "looks for the sender by an atom instead of its name", path=p, sub="receiver")
    return named


def senders(p, v):
    return {y for x in subterms(v) if x and x[0] == "phi" for y in carried(p, x)} | {v}


def unvalues(v):
    return v[1][1] if is_call(v, "values") or is_call(v, "items") else v


def box_of(v):
    while v is not None and v[0] == "i":
        v = v[1]
    return v


def is_grouped(p, box):
    return any(c.name in ("append", "add") and c.recv is not None and c.recv[0] == "i" and c.recv[1] == box for c in p.calls)


def requested(p, o):
    """The functor read from the text of the question: the first token that may name a term."""
    if o == NONE:
        return True
    if not (o[0] == "a" and o[2] == "lexeme" and o[1][0] == "elem"):
        return False
    toks = strip_conv(o[1][1])
    n = new_fields(p, toks) if toks[0] == "new" else None
    src = toks[2][0] if toks[0] == "call" and toks[1] == ("g", M + "lexer.tokenize") else n[2][0] if n and n[1] == TS else None
    if src is None or src[0] != "new" or src[1] != SS or (new_fields(p, src) or (0, 0, ()))[2][1:2] != (TEXT,):
        return False
    return p.fact(("truth", A(A(o[1], "token"), "functor"))) is True


def carries(p, c, el):
    """The message of the call is the source form of the plan."""
    for t in subterms(c.args[2]) if len(c.args) > 2 else []:
        if t and t[0] == "new" and t[1] == M + "Literal":
            a = new_fields(p, t)
            if a and a[2] and len(a[2]) > 1:
                s = a[2][1]
                if s[0] == "tuple" and len(s[1]) == 1 and is_call(s[1][0], "plan_to_str", (el,)):
                    return True
    return False


@rule("plan-text", "P11", floor=1)
def plan_text(ctx):
    """The source form of a plan is the printed syntax tree it was built from, ended by a full stop."""
    f = ctx.prog.func(R_ + "plan_to_str")
    for p in ctx.paths(f):
        ctx.ob()
        if p.kind != "return":
            ctx.bad(f, "a plan has no source form", path=p, sub="text")
            continue
        t = A(param(f.params[0]), "ast_plan")
        if not is_text(p.val, t):
            ctx.bad(f, "is not the printed plan followed by a full stop", path=p, sub="text")


def is_text(v, t):
    return text_parts(v) == [t, "."]


def text_parts(v):
    """A text as the list of its constant pieces and the values printed in it."""
    if v[0] == "c" and isinstance(v[2], str):
        return [v[2]] if v[2] else []
    if v[0] == "bin" and v[1] in ("Add", "+"):
        return glue(text_parts(v[2]) + text_parts(v[3]))
    if v[0] == "fmt":
        return glue([x for part in v[1:] for x in fmt_parts(part)])
    if v[0] == "conv" and v[1] == "str":
        return [v[2]]
    if v[0] == "call" and v[1] == ("g", "builtins.str") and len(v[2]) == 1:
        return [v[2][0]]
    if v[0] == "call" and v[1][0] == "a" and v[1][2] == "__str__" and not v[2]:
        return [v[1][1]]
    return [v]


def fmt_parts(part):
    if isinstance(part, str):
        return [part]
    if isinstance(part, tuple) and part and isinstance(part[0], str) and part[0] in ("c", "bin", "fmt", "conv", "call", "a", "p", "i", "elem"):
        return text_parts(part)
    if isinstance(part, tuple):
        return [x for q in part for x in fmt_parts(q)]
    return []


def glue(parts):
    out = []
    for x in parts:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    return out


@rule("untell-how", "P11", floor=8)
def untell_how(ctx):
    """Taking back a plan removes exactly the plans whose label is the text of the message, from all kinds of plans."""
    f = ctx.prog.func(AG + "_untell_how")
    PL = A(SELF, "plans")
    removed = kept = False
    for p in ctx.paths(f):
        if p.kind == "raise":
            ctx.bad(f, "fails", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        ctx.ob()
        walks = nested(p, PL)
        outers = [l for l in loops(p).values() if l["src"] is not None and mentions(l["src"], PL)]
        if not outers or any(l["exhausted"] is None for l in outers):
            ctx.bad(f, "does not look at every plan", path=p, sub="all")
            continue
        rem = [c for c in p.calls if c.name in ("remove", "pop", "clear") and c.recv is not None]
        used = set()
        for grp, a, b, done, inner in walks:
            looks = [(k, m) for k, m in inner]
            if not looks or any(m["exhausted"] is None for _, m in looks):
                ctx.bad(f, "does not look at every plan of a kind", path=p, sub="all")
                continue
            for _, m in looks:
                for x, y in m["iters"]:
                    el = p.events[x][2]
                    lab = labelled(p, el)
                    took = [c for c in p.calls if x < c.i < y and c.name in ("append", "add") and c.args == (el,) and c.recv[0] == "new"]
                    direct = [c for c in rem if x < c.i < y and c.recv == grp and c.args == (el,)]
                    boxes = {c.recv for c in took}
                    late, idle = [], False
                    for l in loops(p).values():
                        if l["src"] is not None and copied(l["src"]) in boxes and a < l["start"] < b and l["exhausted"] is not None and l["start"] > y:
                            ok = all(any(i < c.i < j and c.recv == grp and c.args == (p.events[i][2],) for c in rem) for i, j in l["iters"])
                            if l["iters"]:
                                late.append((l, ok))
                            else:
                                idle = True
                    if direct and strip_conv(m["src"]) == grp and m["src"] == grp and (m is not looks[-1][1] or y < m["exhausted"]):
                        ctx.bad(f, "plans are removed from the list that is being walked", path=p, sub="live")
                    if direct or took and late and all(k for _, k in late):
                        removed = True
                        used |= {c.i for c in direct} | {c.i for l, _ in late for i, j in l["iters"] for c in rem if i < c.i < j}
                        if lab is not True:
                            ctx.bad(f, "a plan with another label is removed", path=p, sub="which")
                    elif idle:
                        continue        # the list that got the plan is walked without finding it: no real path
                    elif filtered(p, grp, a, b, el, lab):
                        removed = removed or lab is True
                        kept = kept or lab is not True
                    else:
                        kept = True
                        if took:
                            ctx.bad(f, "a plan with the label is found but not removed", path=p, sub="remove")
                        if lab is not False:
                            ctx.bad(f, "a plan with the label is kept", path=p, sub="which")
        for c in rem:
            if len(c.args) == 1 and c.args[0][0] == "elem" and c.args[0][1][0] == "new" and \
                    not any(k.recv == c.args[0][1] and k.name in ("append", "add", "extend") for k in p.calls[:]):
                continue       # walks a list that nothing was put into
            if c.i not in used and mentions(c.recv, PL):
                if not any(x[1] < c.i < x[2] and any(m["iters"] and m["iters"][0][0] for _, m in x[4]) for x in walks):
                    ctx.bad(f, "plans are removed without looking at their label", path=p, sub="which")
                else:
                    ctx.bad(f, "another plan than the one with the label is removed", path=p, sub="which")
    if not removed:
        ctx.bad(f, "no plan is ever removed", sub="remove")
    if not kept:
        ctx.bad(f, "no plan is ever kept", sub="which")


def filtered(p, grp, a, b, el, lab):
    """The group is replaced in place by the plans that are kept (grp[:] = [...])."""
    for i, e in enumerate(p.events[a:b]):
        if e[0] == "setitem" and e[1] == grp and e[3][0] in ("new", "conv", "list"):
            keep = [c for c in p.calls if c.name == "append" and c.recv == strip_conv(e[3]) and c.args == (el,)]
            return bool(keep) == (lab is not True)
    return False


def labelled(p, el):
    """Does the label of the plan equal the text of the message on this path?"""
    an = A(el, "annotation")
    if truthy(p, an) is False:
        return False
    for pr, pol, i in p.facts():
        if pr[0] == "eq":
            sides = [text_parts(pr[1]), text_parts(pr[2])]
            if [TEXT] in sides:
                o = sides[1 - sides.index([TEXT])]
                if o == ["@", A(an, "functor")]:
                    return pol
    return None


@rule("library-add", "P11 P12 P06 P14", floor=2)
def library_add(ctx):
    """A rule or plan is put at the end of the list for its kind, functor and arity, which is where it is looked for."""
    for name, table in (("add_rule", "rules"), ("add_plan", "plans")):
        f = ctx.prog.func(AG + name)
        x = param(f.params[1])
        H = A(x, "head")
        fa = (A(H, "functor"), ("len", A(H, "args")))
        keys = {("tuple", fa), ("call", ("a", H, "literal_group"), (), 0)} if table == "rules" else \
            {("tuple", (A(x, "trigger"), A(x, "goal_type")) + fa)}
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind != "return":
                ctx.bad(f, "refuses to add", path=p, sub="add")
                continue
            T = A(SELF, table)
            adds = [c for c in p.calls if c.recv is not None and c.name == "append" and c.args == (x,) and
                    (c.recv[0] == "i" and c.recv[1] == T and c.recv[2] in keys or
                     is_call(c.recv, "setdefault") and c.recv[1][1] == T and c.recv[2][0] in keys)]
            others = [c for c in p.calls if c.recv is not None and mentions(c.recv, T) and c.name in ("insert", "remove", "pop", "clear", "appendleft", "extend")]
            writes = [e for e in p.events if e[0] in ("setitem", "delitem") and mentions(e[1], T)]
            if len(adds) != 1 or others or [w for w in writes if not fresh_list(w, T, keys)]:
                ctx.bad(f, "is not put at the end of the list for its functor and arity", path=p, sub="add")


def fresh_list(w, T, keys):
    return w[0] == "setitem" and w[1] == T and w[2] in keys and w[3][0] in ("new", "list")


# ------------------------------------------------------------- building agents

@rule("env-names", "P12", floor=2)
def env_names(ctx):
    """A new name is used only after it was found that no agent of the environment has it."""
    f = ctx.prog.func(EN + "_make_name")
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        last = None
        for pr, pol, i in p.facts():
            if pr == ("in", p.val, AGENTS):
                last = pol
        if last is not False:
            ctx.bad(f, "a name is given although another agent may have it", path=p, sub="unique")
        if p.val == NONE or truthy(p, p.val) is False:
            ctx.bad(f, "no name is given", path=p, sub="name")
    rounds = {}
    for q in ctx.iterations(f):
        rounds.setdefault(q.lid, []).append(q)
    for lid, qs in rounds.items():
        ctx.ob()
        back = qs[0].flow.loops.get(lid, {}).get("back", {})
        parts = lambda vs: [t for v in vs for t in subterms(v) if isinstance(t, tuple) and t]
        steps = lambda vs: bool(vs) and all(v[0] == "bin" and v[1] in "+-" and v[3][0] == "c" and v[3][2] or
                                            any(is_call(t, "next") for t in parts([v])) for v in vs)
        moving = {k[1] for k, vs in back.items() if steps(vs)}
        feeds = {k[1] for k, vs in back.items() if any(t[0] == "phi" and t[2] in moving for t in parts(vs))}
        tried = [pr[1] for q in qs for pr, pol, _ in q.facts() if pr[0] == "in" and pr[2] == AGENTS]
        if not any(t[0] == "phi" and t[2] in moving | feeds for t in parts(tried)):
            ctx.bad(f, "the same name is tried again and again", path=qs[0], sub="next")


def truthies(p, v):
    return truthy(p, v) is not False


def is_name(p, v):
    """v = self._make_name(name or source.name)"""
    if not (v[0] == "call" and v[1] == ("a", SELF, "_make_name") and len(v[2]) == 1):
        return False
    a = v[2][0]
    n = param("name")
    if a == n:
        return truthy(p, n) is True or eqf(p, n, NONE) is False
    if a == A(param("source"), "name"):
        return truthy(p, n) is False or eqf(p, n, NONE) is True
    return a[0] in ("or", "bool") and n in a and A(param("source"), "name") in a


def made(p, v):
    """v = agent_cls(self, <new name>)"""
    return v[0] == "call" and v[1] == param("agent_cls") and len(v[2]) == 2 and v[2][0] == SELF and is_name(p, v[2][1])


def direct(src, coll):
    """src walks coll itself, in order."""
    while src is not None and src != coll:
        if src[0] == "conv" and src[1] in ("list", "tuple", "iter"):
            src = src[2]
        elif src[0] == "call" and src[1][0] == "g" and src[1][1] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(src[2]) == 1:
            src = src[2][0]
        elif is_call(src, "copy") and not src[2]:
            src = src[1][1]
        else:
            return False
    return src == coll


def find_loop(ctx, f, p, coll, what, a=0, b=None):
    b = len(p.events) if b is None else b
    ls = [(n, l) for n, l in loops(p).items() if l["src"] is not None and a <= l["start"] < b and direct(l["src"], coll)]
    if len(ls) != 1 or ls[0][1]["exhausted"] is None or not in_order(ls[0][1]):
        ctx.bad(f, "the %s of the source are not all taken, once and in order" % what, path=p, sub=what)
        return None
    return ls[0]


def initial(ctx, f, p, agent, tree, a=0, b=None):
    """Initial beliefs and goals: one event each, for a term with variables of its own, each with an intention of its
    own, beliefs first.  -> index of the first one"""
    first = None
    ends, mine = [], set()
    for coll, goal, part in (("beliefs", "belief", None), ("goals", "achievement", "atom")):
        r = find_loop(ctx, f, p, A(tree, coll), "initial " + coll, a, b)
        if r is None:
            continue
        lid, l = r
        first = l["start"] if first is None else min(first, l["start"])
        starts = []
        for x, y in l["iters"]:
            ctx.ob()
            el = p.events[x][2]
            cs = [(c, n) for n, i, j in spans(p, lid, x, y) for c in p.calls if i < c.i < j and c.name == "call" and c.recv == agent]
            mine |= {c.i for c, _ in cs}
            starts += [c.i for c, n in cs if n != lid]
            lid2 = cs[0][1] if cs else lid
            cs = [c for c, _ in cs]
            if len(cs) != 1 or len(cs[0].args) < 4:
                ctx.bad(f, "no event is raised for one of the initial %s" % coll, path=p, sub="initial " + coll)
                continue
            c = cs[0]
            if c.args[:2] != (ADD, GOALS[goal]):
                ctx.bad(f, "the initial %s are raised as something else" % coll, path=p, sub="initial " + coll)
            v = visitor(c.args[2], A(el, part) if part else el, BT)
            if v is None:
                ctx.bad(f, "the initial %s are not taken from the source" % coll, path=p, sub="initial " + coll)
            else:
                t = field(p, v, "variables")
                if t[0] != "new" or t[2] < lid2:
                    ctx.bad(f, "initial %s share variables" % coll, path=p, sub="variables")
            it = c.args[3]
            if it[0] != "new" or it[1] != R_ + "Intention" or it[2] < lid2:
                ctx.bad(f, "initial %s share an intention" % coll, path=p, sub="intention")
            if c.arg(4, "delayed") != TRUE:
                ctx.bad(f, "the plan for one of the initial %s does not get an intention of its own" % coll, path=p, sub="delayed")
        ends.append((l["start"], starts))
    late = any(x for _, x in ends)
    if len(ends) == 2 and (not late and ends[0][0] > ends[1][0] or ends[0][1] and ends[1][1] and max(ends[0][1]) > min(ends[1][1])):
        ctx.bad(f, "goals are started before the beliefs are there", path=p, sub="order")
    others = [c for c in p.calls if a <= c.i < (b or len(p.events)) and c.name == "call" and c.recv == agent and
              c.i not in mine]
    if others:
        ctx.bad(f, "raises an event that the source does not have", path=p, sub="events")
    return first


@rule("env-build", "P12 P15", floor=60)
def env_build(ctx):
    """An agent built from a program has a new name, the actions, every rule and plan compiled with variables of its
    own, and then an event for every initial belief and goal; it is registered under its name after every recorded
    error was raised, and returned with the program."""
    f = ctx.prog.func(EN + "build_agent_from_ast")
    tree, ACT = param("ast_agent"), param("actions")
    registered = False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        regs = [(i, e) for i, e in enumerate(p.events) if e[0] == "setitem" and e[1] == AGENTS]
        if len(regs) != 1:
            ctx.bad(f, "the agent is not registered exactly once", path=p, sub="register")
            continue
        registered = True
        i, e = regs[0]
        ag = e[3]
        if not made(p, ag):
            ctx.bad(f, "the agent is not a new one with a new name", path=p, sub="name")
        if e[2] != A(ag, "name") and not (ag[0] == "call" and len(ag[2]) > 1 and e[2] == ag[2][1]):
            ctx.bad(f, "the agent is registered under another name", path=p, sub="name")
        if p.val != ("tuple", (tree, ag)):
            ctx.bad(f, "something else than the program and the agent built from it is returned", path=p, sub="result")
        sets = [x for x in p.events if x[0] == "setattr" and x[1] == ag and x[2] == "actions"]
        if not sets or sets[-1][3] != ACT:
            ctx.bad(f, "the agent does not know its actions", path=p, sub="actions")
        logs = set()
        done = []
        r = find_loop(ctx, f, p, A(tree, "rules"), "rules")
        if r is not None:
            lid, l = r
            done.append(l["exhausted"])
            for x, y in l["iters"]:
                el = p.events[x][2]
                cs = [c for c in p.calls if x < c.i < y and c.name == "add_rule" and c.recv == ag]
                new = new_fields(p, cs[0].args[0]) if len(cs) == 1 else None
                if not new or new[1] != RULE:
                    ctx.bad(f, "a rule of the source is not added", path=p, sub="rules")
                    continue
                obj = cs[0].args[0]
                h, q = field(p, obj, "head"), field(p, obj, "query")
                hv, qv = visitor(h, A(el, "head"), BT), visitor(q, A(el, "consequence"), BQ)
                if hv is None or qv is None:
                    ctx.bad(f, "a rule has another head or condition than its source", path=p, sub="rules")
                    continue
                t = field(p, hv, "variables")
                if t[0] != "new" or t[2] < lid or field(p, qv, "variables") != t:
                    ctx.bad(f, "the variables of a rule are not its own", path=p, sub="variables")
                if field(p, qv, "actions") != ACT:
                    ctx.bad(f, "a rule is compiled for other actions", path=p, sub="actions")
                logs.add(field(p, qv, "log"))
        r = find_loop(ctx, f, p, A(tree, "plans"), "plans")
        if r is not None:
            lid, l = r
            done.append(l["exhausted"])
            for x, y in l["iters"]:
                el = p.events[x][2]
                cs = [c for c in p.calls if x < c.i < y and c.name == "add_plan" and c.recv == ag]
                new = new_fields(p, cs[0].args[0]) if len(cs) == 1 else None
                if not new or new[1] != PLAN:
                    ctx.bad(f, "a plan of the source is not added", path=p, sub="plans")
                    continue
                check_plan(ctx, f, p, cs[0].args[0], el, lambda v: v == ACT, logs, len(p.events), lambda t: t[2] > lid)
                if field(p, cs[0].args[0], "body")[0] == "new" and field(p, cs[0].args[0], "body")[2] < lid:
                    ctx.bad(f, "plans share their code", path=p, sub="body")
        first = initial(ctx, f, p, ag, tree)
        if first is not None and done and max(done) > first:
            ctx.bad(f, "events are raised before all rules and plans are there", path=p, sub="order")
        for log in logs:
            reported(ctx, f, p, log, i, "the agent is registered")
        if any(c.i > i and (c.recv == ag and c.name in ("add_plan", "add_rule", "call")) for c in p.calls):
            ctx.bad(f, "the agent is registered before it is complete", path=p, sub="complete")
    if not registered:
        ctx.bad(f, "no agent is ever registered", sub="register")


@rule("env-parse", "P12 P15 P26", floor=2)
def env_parse(ctx):
    """An agent is built from the program that the whole source was parsed to, after every recorded error of the
    source was raised, with the actions, class and name that were asked for."""
    for name in ("build_agent", "build_agents"):
        f = ctx.prog.func(EN + name)
        built = False
        for p in ctx.paths(f):
            if p.kind != "return":
                continue
            bs = [c for c in p.calls if c.name == "build_agent_from_ast"]
            if name == "build_agents" and not bs:
                continue
            ctx.ob()
            if len(bs) != 1:
                ctx.bad(f, "the source is not built exactly once", path=p, sub="build")
                continue
            built = True
            b = bs[0]
            ps = [c for c in p.calls if c.qual == P_ + "parse"]
            a = [b.arg(i, k) for i, k in enumerate(("source", "ast_agent", "actions", "agent_cls", "name"))]
            if len(ps) != 1 or a[1] != ps[0].res:
                ctx.bad(f, "another program than the parsed one is built", path=p, sub="program")
                continue
            c = ps[0]
            if (a[0], a[2], a[3], a[4]) != (param("source"), param("actions"), param("agent_cls"), param("name")):
                ctx.bad(f, "the agent is built with other actions, class or name than asked for", path=p, sub="arguments")
            toks, log = c.args[1:3]
            n = new_fields(p, toks)
            if c.args[0] != A(param("source"), "name") or not n or n[2][:2] != (param("source"), log):
                ctx.bad(f, "another source than the given one is parsed", path=p, sub="source")
            ts = [t for t in throws(p, log) if c.i < t < b.i]
            if not ts:
                ctx.bad(f, "an agent is built from a source with errors", path=p, sub="errors")
            if name == "build_agent" and p.val != ("i", b.res, const(1)):
                ctx.bad(f, "another agent than the built one is returned", path=p, sub="result")
        if not built:
            ctx.bad(f, "never builds the source", sub="build")


@rule("env-clone", "P12", floor=200)
def env_clone(ctx):
    """Building several agents gives as many as asked for; each further one has a new name, the actions, all rules
    and plans of the first one and its own events for every initial belief and goal of the source."""
    f = ctx.prog.func(EN + "build_agents")
    N = param("n")
    cloned = empty = False
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        bs = [c for c in p.calls if c.name == "build_agent_from_ast"]
        if not bs:
            empty = True
            pos = None
            for pr, pol, i in p.facts():
                if pr == ("lt", const(0), N):
                    pos = pol
                elif pr == ("lt", N, const(1)):
                    pos = not pol
                elif pr == ("truth", N) and not pol:
                    pos = False
            if pos is not False:
                ctx.bad(f, "no agent is built although some were asked for", path=p, sub="count")
            if p.val not in (("list", ()), ("tuple", ())) and p.val[0] != "new":
                ctx.bad(f, "no list of agents is returned", path=p, sub="result")
            continue
        if (p.fact(("lt", const(0), N)) is not True and p.fact(("lt", N, const(1))) is not False) and \
                not any(c.name == "range" for c in p.calls):
            ctx.bad(f, "an agent is built although none was asked for", path=p, sub="count")
        proto, tree = ("i", bs[0].res, const(1)), ("i", bs[0].res, const(0))
        if not mentions(p.val, proto) and not any(c.name == "append" and c.recv == p.val and c.args == (proto,) for c in p.calls):
            ctx.bad(f, "the first agent is not among the result", path=p, sub="result")
        regs = [(i, e) for i, e in enumerate(p.events) if e[0] == "setitem" and e[1] == AGENTS]
        whiles = [(n, l) for n, l in loops(p).items() if l["iters"] and any(a < i < b for i, _ in regs for a, b in l["iters"])]
        for n, l in loops(p).items():
            if l["src"] is None and not counted(p, N):
                ctx.bad(f, "ends before there are as many agents as asked for", path=p, sub="count")
        if regs and not whiles:
            ctx.bad(f, "agents are registered outside the loop that makes them", path=p, sub="register")
        for n, l in whiles:
            for a, b in l["iters"]:
                cloned = True
                clone(ctx, f, p, proto, tree, n, a, b)
    if not cloned:
        ctx.bad(f, "only one agent is ever built", sub="count")


def counted(p, N):
    """The last thing decided about the number of agents is that it is reached."""
    for pr, pol, i in reversed(p.facts()):
        if pr[0] in ("lt", "eq", "le") and N in pr[1:] and any(t and t[0] == "len" for x in pr[1:] for t in subterms(x)):
            if any(t and t[0] == "len" and t[1] is not None and mentions(t[1], A(SELF, "agents")) for x in pr[1:] for t in subterms(x)):
                return False        # the agents there were before count as well
            if pr[0] == "lt" and pr[2] == N or pr[0] == "le" and pr[1] == N:
                return not pol if pr[0] == "lt" else pol
            if pr[0] == "eq":
                return pol
            return False
    return True


def whole_group(p, table, grp, x, y):
    """All of a group is put under the same key of the table, in a list of its own."""
    e = p.events[x][2]
    key = e[1][0] if e[0] == "tuple" else e if grp[0] == "i" and grp[2] == e else ("i", e, const(0))
    to = ("i", table, key)
    exts = [c for c in p.calls if x < c.i < y and c.name == "extend" and c.recv == to and len(c.args) == 1 and copied(c.args[0]) == grp]
    sets = [v for v in p.events[x:y] if v[0] == "setitem" and v[1] == table and v[2] == key and v[3] != grp and copied(v[3]) == grp]
    return len(exts) + len(sets) == 1


def clone(ctx, f, p, proto, tree, lid, a, b):
    regs = [(i, e) for i, e in enumerate(p.events) if e[0] == "setitem" and e[1] == AGENTS and a < i < b]
    if len(regs) != 1:
        ctx.bad(f, "an agent is not registered exactly once", path=p, sub="register")
        return
    i, e = regs[0]
    ag = e[3]
    if not any(c.name == "append" and c.args == (ag,) and a < c.i < b and strip_conv(c.recv) == strip_conv(p.val) for c in p.calls):
        ctx.bad(f, "an agent is built but not returned", path=p, sub="result")
    if not made(p, ag) or not any(a < c.i < b and c.res == ag for c in p.calls):
        ctx.bad(f, "a further agent is not a new one with a new name", path=p, sub="name")
    if e[2] != A(ag, "name") and not (ag[0] == "call" and len(ag[2]) > 1 and e[2] == ag[2][1]):
        ctx.bad(f, "an agent is registered under another name", path=p, sub="name")
    sets = [x for x in p.events[a:b] if x[0] == "setattr" and x[1] == ag and x[2] == "actions"]
    if not sets or sets[-1][3] not in (param("actions"), A(proto, "actions")):
        ctx.bad(f, "a further agent does not know its actions", path=p, sub="actions")
    for what, add in (("rules", "add_rule"), ("plans", "add_plan")):
        walks = [w for w in nested(p, A(proto, what)) if a < w[1] < b]
        outs = [l for l in loops(p).values() if a < l["start"] < b and l["src"] is not None and mentions(l["src"], A(proto, what))]
        if not outs or any(l["exhausted"] is None or not in_order(l) for l in outs):
            ctx.bad(f, "a further agent does not get all %s in order" % what, path=p, sub=what)
            continue
        for g, x, y, done, inner in walks:
            if not inner and whole_group(p, A(ag, what), g, x, y):
                continue
            if len(inner) != 1:
                ctx.bad(f, "a further agent does not get all %s in order" % what, path=p, sub=what)
                continue
            for u, v in inner[0][1]["iters"]:
                cs = [c for c in p.calls if u < c.i < v and c.name == add and c.recv == ag]
                if len(cs) != 1 or cs[0].args != (p.events[u][2],):
                    ctx.bad(f, "a further agent does not get one of the %s" % what, path=p, sub=what)
    shared = [x for x in p.events[a:b] if x[0] == "setattr" and x[1] == ag and mentions(x[3], proto) and x[2] != "actions"]
    if shared:
        ctx.bad(f, "a further agent shares its %s with the first one" % shared[0][2], path=p, sub="shared")
    first = initial(ctx, f, p, ag, tree, a, b)
    adds = [c.i for c in p.calls if a < c.i < b and c.name in ("add_rule", "add_plan") and c.recv == ag]
    adds += [c.i for c in p.calls if a < c.i < b and c.name == "extend" and c.recv is not None and (mentions(c.recv, A(ag, "rules")) or mentions(c.recv, A(ag, "plans")))]
    adds += [i for i, x in enumerate(p.events) if a < i < b and x[0] == "setitem" and x[1] in (A(ag, "rules"), A(ag, "plans"))]
    if first is not None and adds and max(adds) > first:
        ctx.bad(f, "events are raised before all rules and plans are there", path=p, sub="order")


@rule("instance-state", "P12 P07", floor=12)
def instance_state(ctx):
    """Beliefs, rules, plans, intentions, bindings and trails are containers made for each agent or intention."""
    for cls, want in ((R_ + "Agent", ("beliefs", "rules", "plans", "intentions")),
                      (R_ + "Intention", ("scope", "stack", "query_stack", "choicepoint_stack")), (R_ + "Environment", ("agents",))):
        f = need_method(ctx, cls, "__init__")
        for p in ctx.paths(f):
            if p.kind != "return":
                continue
            seen = {}
            for n in want:
                ctx.ob()
                v = None
                for e in p.events:
                    if e[0] == "setattr" and e[1] == SELF and e[2] == n:
                        v = e[3]
                if v is None:
                    ctx.bad(f, "does not make its own %s" % n, path=p, sub=n)
                    continue
                if v[0] == "p" and eqf(p, v, NONE) is False or v[0] == "p" and truthy(p, v):
                    continue        # given by the caller
                if v[0] not in ("new", "conv", "list", "dict"):
                    ctx.bad(f, "the %s are not made for each object" % n, path=p, sub=n)
                elif v in seen:
                    ctx.bad(f, "%s and %s are the same container" % (seen[v], n), path=p, sub=n)
                seen[v] = n
    # an intention starts with nothing to do and waits for nothing
    f = need_method(ctx, R_ + "Intention", "__init__")
    for p in ctx.paths(f):
        for n in ("instr", "waiter", "calling_term", "head_term"):
            ctx.ob()
            v = [e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF and e[2] == n]
            if v[-1:] != [NONE]:
                ctx.bad(f, "a new intention has a %s" % n, path=p, sub=n)


@rule("name-words", "P12 P10", floor=12)
def name_words(ctx):
    """A name made from a file name is never a reserved word of the language: programs can write it where they name an agent."""
    f = ctx.prog.func(M + "sanitize_functor")
    reserved = {t.lit for t in token_table(ctx.prog) if t.lit and t.lit.isalpha()}
    if not reserved & {"div", "while", "end"}:
        raise AnalysisBroken("no reserved words found")
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        v = p.val
        ctx.ob()
        if v[0] == "c" and v[2] not in reserved or truthy(p, v) is False:
            continue
        if v[0] == "bin" and v[1] == "+" and v[3][0] == "c" and str(v[3][2])[-1:] in ("_", *"0123456789"):
            continue
        tests = [pred[2] for pred, pol, i in p.facts() if pred[0] == "in" and pred[1] == v and not pol]
        if not tests:
            ctx.bad(f, "a reserved word may be given as a name", path=p, sub="word")
            continue
        for t in tests:
            words = listed(ctx, f, t)
            if words is not None and reserved - words:
                ctx.bad(f, "reserved words are given as names: %s" % ", ".join(sorted(reserved - words)[:3]), path=p, sub="words")


def listed(ctx, f, v):
    """The strings a constant container holds, None if unknown."""
    if v[0] == "g":
        mod, name = v[1].rsplit(".", 1)
        m = ctx.prog.modules.get(mod)
        node = m and m.assigns.get(name)
        if not node or len(node) != 1:
            return None
        node = node[0]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("frozenset", "set", "tuple", "list") and node.args:
            node = node.args[0]
        try:
            out = fold(ctx.prog, m, node)
        except NotConst:
            return None
        return set(out) if isinstance(out, (list, dict)) else None
    if v[0] in ("tuple", "conv"):
        xs = v[1] if v[0] == "tuple" else v[2][1] if v[2][0] == "tuple" else None
        return {x[2] for x in xs} if xs is not None and all(x[0] == "c" for x in xs) else None
    return None
