"""Compiling bodies, queries and terms: what code is generated and what each instruction does."""
from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import M, need_method
from .queries import aslerr
from .agents import truthy, eqf, ADD, REM, GOALS

BI = R_ + "BuildInstructionsVisitor"
BT, BQ, BR, BE = (R_ + n for n in ("BuildTermVisitor", "BuildQueryVisitor", "BuildReplacePatternVisitor", "BuildEventVisitor"))
FOLD = M + "parser.ConstFoldVisitor"
INSTR = R_ + "Instruction"
TAIL = A(SELF, "tail")


def ast_param(f):
    """The visited node: the parameter after self."""
    return param(f.params[1])


def members(ctx, cls):
    return [G(cls + "." + n) for n in ctx.prog.cls(cls).assigns]


def admits(p, value, member, names):
    """Could `value` be this member of the enumeration on this path?"""
    for pr, pol, _ in p.facts():
        if pr[0] in ("eq", "is") and value in pr[1:]:
            other = pr[2] if pr[1] == value else pr[1]
            if other in names and (other == member) != pol:
                return False
        elif pr[0] == "in" and pr[1] == value:
            inner = [t for t in subterms(pr[2]) if t in names]
            if inner and (member in inner) != pol:
                return False
    return True


# ------------------------------------------------------ what instructions do

def summary(ctx, f, paths=None):
    """Effect of an instruction function (bound arguments..., agent, intention)."""
    if f is None:
        return None
    paths = [p for p in (ctx.paths(f) if paths is None else paths)]
    rets = [p for p in paths if p.kind == "return"]
    names = f.params
    if len(names) < 2:
        return None
    ag, it = param(names[-2]), param(names[-1])
    qs, cs = A(it, "query_stack"), A(it, "choicepoint_stack")

    def real(p):
        return [c for c in p.calls]

    if len(paths) == 1 and rets:
        p = rets[0]
        cs_ = real(p)
        ret_true = p.val[0] == "c" and bool(p.val[2])
        writes = [e for e in p.events if e[0] in ("setattr", "setitem", "delitem", "delattr")]
        if not cs_ and ret_true and not writes:
            return ("noop",)
        if len(cs_) == 1 and cs_[0].name == "call" and cs_[0].recv == ag and p.val == cs_[0].res and not writes:
            c = cs_[0]
            a = list(c.args) + [c.kw.get("delayed", FALSE)]
            if len(a) >= 5 and a[3] == it:
                return ("event", a[0], a[1], a[2], a[4])
        if ret_true and len(cs_) == 2 and cs_[0].name == "execute" and cs_[0].args == (ag, it) and \
                cs_[1].name == "append" and cs_[1].recv == qs and cs_[1].args == (cs_[0].res,):
            return ("open", cs_[0].recv)
        if ret_true and len(cs_) == 1 and cs_[0].name == "pop" and cs_[0].recv == qs and not cs_[0].args:
            return ("close",)
        if ret_true and {c.name for c in cs_} == {"append"} and len(cs_) == 2 and \
                {c.recv for c in cs_} == {cs, A(it, "stack")} and cs_[0].args == cs_[1].args and \
                cs_[0].args and cs_[0].args[0][0] == "new":
            return ("mark",)
        if ret_true and len(cs_) == 2 and cs_[0].name == "pop" and cs_[0].recv == cs and not cs_[0].args and \
                cs_[1].name == "reroll" and cs_[1].args == (A(it, "scope"), A(it, "stack"), cs_[0].res):
            return ("undo",)
    # advance: next() of the innermost query, true if there is a solution
    if rets and all(p.kind == "return" for p in paths):
        adv = True
        outcomes = set()
        top = ("i", qs, const(-1))
        for p in paths:
            nx = [c for c in p.calls if c.name == "next" and c.args[:1] == (top,)]
            fl = [l for l in loops(p).values() if l["src"] == top]
            if len(nx) == 1 and not fl and len(real(p)) == 1:
                stopped = "StopIteration" in excepts(p)
                if len(nx[0].args) > 1:
                    # next(q, default): the default stands for exhaustion
                    stopped = None
                if stopped is None:
                    adv = False
            elif len(fl) == 1 and not real(p):
                stopped = not fl[0]["iters"]
            else:
                adv = False
                continue
            if p.val[0] != "c" or bool(p.val[2]) == stopped:
                adv = False
            outcomes.add(stopped)
        if adv and outcomes == {True, False}:
            return ("next",)
    return ("unknown", f.qual)


def substitute(v, env):
    if not isinstance(v, tuple):
        return v
    if v in env:
        return env[v]
    return tuple(substitute(x, env) for x in v)


def operation(ctx, fv, at=None):
    """Operation of an instruction, from the value given as its function (made on path at)."""
    bound = ()
    while fv[0] == "partial":
        bound = tuple(fv[2]) + bound
        fv = fv[1]
    f = None
    if fv[0] == "g":
        f = ctx.prog.functions.get(fv[1])
    elif fv[0] == "a" and fv[1] == SELF:
        f = ctx.prog.find_method(BI, fv[2])
        bound = (SELF,) + bound
    if fv[0] == "func" and at is not None and fv[2] in at.flow.info:
        # a function made on the path
        paths = ctx.closure(at, fv)
        f = at.flow.info[fv[2]][0]
        if len(f.params) != len(bound) + 2 or f.vararg or f.kwarg:
            return ("unknown", f.qual)
        last = (param(f.params[-2]), param(f.params[-1]))
        if len(paths) == 1 and paths[0].kind == "return" and len(paths[0].calls) == 1:
            c = paths[0].calls[0]
            if c.res == paths[0].val and c.args[-2:] == last and not c.kw and c.qual in ctx.prog.functions:
                return substitute(operation(ctx, ("partial", ("g", c.qual), c.args[:-2]), at), {param(n): b for n, b in zip(f.params, bound)})
        s = summary(ctx, f, paths)
        return ("unknown", f.qual) if s is None else substitute(s, {param(n): b for n, b in zip(f.params, bound)})
    if f is None:
        raise AnalysisBroken("cannot tell what the instruction %s does" % show(fv))
    s = summary(ctx, f)
    if s is None or len(f.params) != len(bound) + 2:
        return ("unknown", f.qual)
    return substitute(s, {param(n): b for n, b in zip(f.params, bound)})


# --------------------------------------------------- instruction graphs

class Graph(object):
    """The code a path of a visitor generates: a graph of instructions."""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.nodes = {}
        self.alias = {}
        self.entry = self.add(("noop",), None)
        self.tail = self.entry
        self.problems = []
        self.run()

    def add(self, op, ev, fail=None, loc=NONE):
        n = len(self.nodes)
        self.nodes[n] = {"op": op, "succ": None, "fail": fail, "loc": loc, "ev": ev}
        return n

    def node(self, v):
        if v == TAIL:
            return self.tail
        if v in self.alias:
            return self.alias[v]
        if v[0] == "a" and v[2] in ("success", "failure"):
            b = self.node(v[1])
            if b is not None:
                return self.nodes[b]["succ" if v[2] == "success" else "fail"]
        return None

    def run(self):
        p = self.p
        for i, e in enumerate(p.events):
            if e[0] == "new" and e[1] == INSTR:
                init = p.flow.newfields.get(e[4], {})
                n = self.add(operation(self.ctx, init.get("f", e[2][0] if e[2] else NONE), self.p), e, loc=init.get("loc", NONE))
                self.alias[e[4]] = n
            elif e[0] == "call" and e[1] == ("a", SELF, "add_instr"):
                a = list(e[2])
                kw = dict(e[3])
                n = self.add(operation(self.ctx, a[0] if a else kw["f"], self.p), e, loc=a[1] if len(a) > 1 else kw.get("loc", NONE))
                self.nodes[self.tail]["succ"] = n
                self.tail = n
                self.alias[e[4]] = n
            elif e[0] == "call" and e[1][0] == "a" and (e[1][2] == "accept" and e[2] == (SELF,) or
                                                        e[1][1] == SELF and e[1][2].startswith("visit_")):
                part = e[1][1] if e[1][2] == "accept" else e[2][0]
                n = self.add(("body", part), e)
                self.nodes[self.tail]["succ"] = n
                self.tail = n
                self.alias[e[4]] = n
            elif e[0] == "setattr" and e[1] == SELF and e[2] == "tail":
                n = self.node(e[3])
                if n is None:
                    self.problems.append("the end of the code is set to something else")
                else:
                    self.tail = n
            elif e[0] == "setattr" and e[2] in ("success", "failure", "f", "loc"):
                n = self.node(e[1])
                if n is None:
                    continue
                if e[2] == "f":
                    self.nodes[n]["op"] = operation(self.ctx, e[3], self.p)
                elif e[2] == "loc":
                    self.nodes[n]["loc"] = e[3]
                else:
                    m = self.node(e[3]) if e[3] != NONE else None
                    self.nodes[n]["succ" if e[2] == "success" else "fail"] = m

    def explore(self, start, step, final):
        """Runs the code against a monitor.  step(state, label) -> state, or a message (str) if the label
        must not happen; final(state) -> message or None.  Returns the messages."""
        out = []
        seen = set()
        todo = [(self.entry, 0, 0, start)]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            if len(seen) > 4000:
                return out + ["the code opens queries without end"]
            n, q, m, st = c
            node = self.nodes[n]
            op = node["op"]
            nexts = []
            if op[0] == "noop":
                nexts = [("succ", q, m, st)]
            elif op[0] == "open":
                nexts = [("succ", q + 1, m, step(st, op, q, m))]
            elif op[0] == "close":
                nexts = [("succ", q - 1, m, step(st, op, q, m))]
            elif op[0] == "mark":
                nexts = [("succ", q, m + 1, step(st, op, q, m))]
            elif op[0] == "undo":
                nexts = [("succ", q, m - 1, step(st, op, q, m))]
            elif op[0] == "next":
                nexts = [("succ", q, m, step(st, ("next", True), q, m))]
                if node["fail"] is None:
                    r = step(st, ("fails",), q, m)
                    if isinstance(r, str) and " " in r:
                        out.append(r)
                else:
                    nexts.append(("fail", q, m, step(st, ("next", False), q, m)))
            elif op[0] in ("body", "event"):
                nexts = [("succ", q, m, step(st, op, q, m))]
                if node["fail"] is not None:
                    out.append("a failing formula does not fail the plan")
            else:
                out.append("an instruction without known effect is generated (%s)" % (op[1],))
            for edge, q2, m2, s2 in nexts:
                if isinstance(s2, str) and " " in s2:
                    out.append(s2)
                    continue
                if q2 < 0 or m2 < 0:
                    out.append("closes more queries or choice points than were opened")
                    continue
                if q2 > 6 or m2 > 6:
                    out.append("opens queries or choice points without closing them")
                    continue
                t = node[edge]
                if t is None:
                    if n != self.tail:
                        out.append("the code ends before what follows")
                        continue
                    if q2 or m2:
                        out.append("a query or choice point stays open")
                    r = final(s2)
                    if r:
                        out.append(r)
                    continue
                todo.append((t, q2, m2, s2))
        return sorted(set(out))


def is_query(p, v, part):
    """v is the query compiled from the part of the program, with the variables and actions of this plan."""
    if not (v[0] == "call" and v[1] == ("a", part, "accept") and len(v[2]) == 1):
        return False
    o = v[2][0]
    return o[0] == "new" and o[1] == BQ and field(p, o, "variables") == A(SELF, "variables") and \
        field(p, o, "actions") == A(SELF, "actions") and field(p, o, "log") == A(SELF, "log")


def is_term(p, v, part, cls=BT):
    if not (v[0] == "call" and v[1] == ("a", part, "accept") and len(v[2]) == 1):
        return False
    o = v[2][0]
    if o[0] != "new" or o[1] != cls:
        return False
    vs = field(p, o, "variables")
    if cls == BT:
        return vs == A(SELF, "variables")
    # whether its own constructor makes fresh ones is decided by build-event
    return vs != A(SELF, "variables") and (vs[0] == "new" or vs == A(o, "variables"))


def check_locs(ctx, f, p, g, ast):
    for n, node in g.nodes.items():
        if node["op"][0] in ("next", "event"):
            ctx.ob()
            l = node["loc"]
            if not (l[0] == "a" and l[2] == "loc" and mentions(l, ast)):
                ctx.bad(f, "an instruction that can fail has no location of its formula", path=p, sub="loc")


def graphs(ctx, f):
    out = []
    for p in ctx.paths(f):
        if p.kind == "raise":
            continue
        if p.kind != "return":
            continue
        g = Graph(ctx, p)
        for t in g.problems:
            ctx.bad(f, t, path=p, sub="code")
        if g.node(p.val) != g.tail:
            ctx.bad(f, "does not report where the generated code ends", path=p, sub="end")
        out.append((p, g))
    if not out:
        ctx.bad(f, "generates no code", sub="code")
    return out


@rule("code-ops", "P13 P07 P01", floor=8)
def code_ops(ctx):
    """The instruction functions of plan bodies do what the compiler uses them for: raise the event with the term
    and intention they are given, open a query on the innermost position, advance it, close it, set a choice point
    and undo to it; a solution or success is reported as true, exhaustion as false."""
    want = {
        "noop": ("noop",),
        "add_belief": ("event", ADD, GOALS["belief"], TERM, FALSE),
        "remove_belief": ("event", REM, GOALS["belief"], TERM, FALSE),
        "test_belief": ("event", ADD, GOALS["test"], TERM, FALSE),
        "call": ("event", param("trigger"), param("goal_type"), TERM, FALSE),
        "call_delayed": ("event", param("trigger"), param("goal_type"), TERM, TRUE),
        "push_query": ("open", param("query")),
        "next_or_fail": ("next",), "pop_query": ("close",), "push_choicepoint": ("mark",), "pop_choicepoint": ("undo",),
    }
    n = 0
    for name, w in want.items():
        f = ctx.prog.functions.get(R_ + name)
        if f is None:
            continue
        n += 1
        ctx.check(summary(ctx, f) == w, f, "does not do what its name says when executed", sub="effect")
    if n < 6:
        raise AnalysisBroken("the instruction functions are gone")


@rule("code-append", "P13", floor=3)
def code_append(ctx):
    """Code is appended by making the old end continue at a new instruction with the given function and location,
    which becomes the end; new instructions continue nowhere."""
    f = ctx.prog.functions.get(BI + ".add_instr")
    if f is not None:
        fn, loc, extra = (param(n) for n in (f.params[1:] + ["", "", ""])[:3])
        for p in ctx.paths(f):
            ctx.ob()
            new = [e for e in p.events if e[0] == "new" and e[1] == INSTR]
            if p.kind != "return" or len(new) != 1:
                ctx.bad(f, "does not add exactly one instruction", path=p)
                continue
            v = new[0][4]
            succ = [e for e in p.events if e[0] == "setattr" and e[2] == "success"]
            tails = [e for e in p.events if e[0] == "setattr" and e[1] == SELF and e[2] == "tail"]
            if len(succ) != 1 or succ[0][1] != TAIL or succ[0][3] != v:
                ctx.bad(f, "the old end does not continue at the new instruction", path=p, sub="success")
            if not tails or tails[-1][3] not in (v, A(TAIL, "success")):
                ctx.bad(f, "the new instruction is not the new end", path=p, sub="tail")
            if tails and succ and tails[0][3] == v and p.events.index(tails[0]) < p.events.index(succ[0]):
                ctx.bad(f, "the new instruction continues at itself", path=p, sub="tail")
            if p.val not in (v, TAIL):
                ctx.bad(f, "does not return the new instruction", path=p, sub="result")
            if field(p, v, "f") != fn or field(p, v, "loc") != loc or extra != param("") and field(p, v, "extra_locs") != extra:
                ctx.bad(f, "function or location of the instruction are lost", path=p, sub="content")
    init = need_method(ctx, INSTR, "__init__")
    for p in ctx.paths(init):
        ctx.ob()
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        if st.get("success", NONE) != NONE or st.get("failure", NONE) != NONE:
            ctx.bad(init, "a new instruction continues somewhere", path=p, sub="fresh")
        for n in ("f", "loc", "extra_locs"):
            if n in init.params and st.get(n) != param(n):
                ctx.bad(init, "%s of the instruction is not kept" % n, path=p, sub=n)
    init = need_method(ctx, BI, "__init__")
    for p in ctx.paths(init):
        ctx.ob()
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        for n in ("variables", "actions", "tail", "log"):
            if n in init.params and st.get(n) != param(n):
                ctx.bad(init, "%s of the compiler is not kept" % n, path=p, sub=n)


@rule("code-formula", "P13 P05 P07 P23", floor=7)
def code_formula(ctx):
    """Every kind of formula compiles to its own operation on its own term: add, remove, test, achieve now and later
    raise the event of that kind, replace first removes a pattern with fresh variables and then adds, a query is
    opened, must have a solution and is closed; failing fails the plan, and each step that can fail knows its place."""
    f = need_method(ctx, BI, "visit_formula")
    ast = ast_param(f)
    ft = A(ast, "formula_type")
    names = members(ctx, M + "FormulaType")
    term = A(ast, "term")
    expect = {
        "add": [(ADD, "belief", BT, FALSE)], "remove": [(REM, "belief", BT, FALSE)], "test": [(ADD, "test", BT, FALSE)],
        "replace": [(REM, "belief", BR, FALSE), (ADD, "belief", BT, FALSE)],
        "achieve": [(ADD, "achievement", BT, FALSE)], "achieve_later": [(ADD, "achievement", BT, TRUE)],
    }
    gs = graphs(ctx, f)
    for m in names:
        kind = m[1].rsplit(".", 1)[-1]
        mine = [(p, g) for p, g in gs if admits(p, ft, m, names)]
        ctx.ob(text="formula kind " + kind)
        if not mine:
            ctx.bad(f, "formulas of kind %s are not compiled" % kind, sub=kind)
            continue
        for p, g in mine:
            check_locs(ctx, f, p, g, ast)
            ops = straight(g)
            if ops is None:
                ctx.bad(f, "the code of the formula branches", path=p, sub=kind)
                continue
            if kind == "term":
                def step(st, lab, q, m_):
                    if lab[0] == "open":
                        return "opened" if st == "start" and is_query(p, lab[1], term) else "another query is executed"
                    if lab == ("next", True):
                        return "solved" if st == "opened" else "the query is advanced at the wrong place"
                    if lab == ("fails",):
                        return st
                    if lab[0] == "close":
                        return st if st in ("solved",) else "the query is closed before it is executed"
                    return "something else is executed than the query"
                for t in g.explore("start", step, lambda s: None if s == "solved" else "the query is not executed"):
                    ctx.bad(f, t, path=p, sub=kind)
                if any(n["op"][0] == "next" and n["fail"] is not None for n in g.nodes.values()):
                    ctx.bad(f, "a query without solution does not fail the plan", path=p, sub=kind)
                continue
            if kind not in expect:
                continue
            evs = [o for o in ops if o[0] != "noop"]
            want = expect[kind]
            ok = len(evs) == len(want) and all(
                o[0] == "event" and o[1] == t and o[2] == GOALS[gt] and o[4] == dl and is_term(p, o[3], term, c)
                for o, (t, gt, c, dl) in zip(evs, want))
            if not ok:
                ctx.bad(f, "a formula of kind %s does not do what it says" % kind, path=p, sub=kind)
            if any(n["fail"] is not None for n in g.nodes.values()):
                ctx.bad(f, "a failing formula does not fail the plan", path=p, sub=kind)


def straight(g):
    """Operations of code without branches, in order of execution."""
    out, n, seen = [], g.entry, set()
    while n is not None and n not in seen:
        seen.add(n)
        out.append(g.nodes[n]["op"])
        if g.nodes[n]["op"][0] == "event" and g.nodes[n]["fail"] is not None:
            return None
        if g.nodes[n]["succ"] is None and n != g.tail:
            return None
        n = g.nodes[n]["succ"]
    return out if n is None else None


@rule("code-if", "P13 P23", floor=4)
def code_if(ctx):
    """A conditional opens its condition once, asks for one solution, executes the first branch if there is one and
    the second otherwise, closes the query on both ways and goes on after it, with or without branches."""
    f = need_method(ctx, BI, "visit_if_then_else")
    ast = ast_param(f)
    cond, ifb, elseb = A(ast, "condition"), A(ast, "if_body"), A(ast, "else_body")
    for p, g in graphs(ctx, f):
        ctx.ob()
        check_locs(ctx, f, p, g, ast)
        has_if, has_else = truthy(p, ifb), truthy(p, elseb)

        def step(st, lab, q, m):
            if lab[0] == "open":
                return "opened" if st == "start" and is_query(p, lab[1], cond) else "another condition is queried"
            if lab[0] == "next":
                if st != "opened":
                    return "the condition is asked for more than one solution, or too early"
                return "yes" if lab[1] else "no"
            if lab[0] == "fails":
                return "a condition without solution fails the plan"
            if lab[0] == "body":
                if st == "yes" and lab[1] == ifb:
                    return "yes-done"
                if st == "no" and lab[1] == elseb:
                    return "no-done"
                return "the wrong branch is executed"
            if lab[0] == "close":
                return st if st != "opened" else "the condition is closed before it is asked"
            return "bindings are undone or something else is executed in a conditional"

        def final(st):
            if st in ("yes-done", "no-done") or st == "yes" and has_if is False or st == "no" and has_else is False:
                return None
            return "a branch that is there is not executed" if st in ("yes", "no") else "the condition is not evaluated"
        for t in g.explore("start", step, final):
            ctx.bad(f, t, path=p, sub="flow")


@rule("code-for", "P13 P23", floor=1)
def code_for(ctx):
    """A for loop opens its query once, executes its body once after each solution before asking for the next, and
    closes the query and goes on after the last; it never fails by itself."""
    f = need_method(ctx, BI, "visit_for")
    ast = ast_param(f)
    gen, body = A(ast, "generator"), A(ast, "body")
    for p, g in graphs(ctx, f):
        ctx.ob()
        check_locs(ctx, f, p, g, ast)

        def step(st, lab, q, m):
            if lab[0] == "open":
                return "ready" if st == "start" and is_query(p, lab[1], gen) else "the query is opened again or another one is opened"
            if lab[0] == "next":
                if st != "ready":
                    return "a solution is asked for before the body was executed"
                return "solution" if lab[1] else "done"
            if lab[0] == "fails":
                return "the end of the loop fails the plan"
            if lab[0] == "body":
                return "ready" if st == "solution" and lab[1] == body else "the body is executed without a new solution"
            if lab[0] == "close":
                return st if st == "done" else "the query is closed before its last solution"
            return "bindings are undone or something else is executed in a for loop"
        for t in g.explore("start", step, lambda s: None if s == "done" or truthy(p, body) is False and s == "done" else "the loop ends too early"):
            ctx.bad(f, t, path=p, sub="flow")


@rule("code-while", "P13 P01 P23", floor=1)
def code_while(ctx):
    """A while loop opens its condition anew for every round, under a choice point; after a solution the body is
    executed once, the bindings of the round are undone and the query is closed before the next round; without
    solution both are closed and execution goes on after the loop."""
    f = need_method(ctx, BI, "visit_while")
    ast = ast_param(f)
    cond, body = A(ast, "condition"), A(ast, "body")
    for p, g in graphs(ctx, f):
        ctx.ob()
        check_locs(ctx, f, p, g, ast)

        # state: (phase, open, marked)
        def step(st, lab, q, m):
            ph, op, mk = st
            if lab[0] == "open":
                if op or q or not is_query(p, lab[1], cond):
                    return "another condition is queried, or it is opened twice"
                if ph == "yes":
                    return "a round has no body"
                if ph == "body":
                    if mk:
                        return "bindings of a round are not undone before the next"
                    ph = "start"
                return ("start", True, mk) if ph == "start" else "the loop goes on after its end"
            if lab[0] == "mark":
                if mk or m:
                    return "choice points pile up"
                if ph == "body" and not op:
                    ph = "start"
                return ("start", op, True) if ph == "start" else "a choice point is set after the condition was asked"
            if lab[0] == "next":
                if ph != "start" or not op or not mk:
                    return "the condition is asked twice, or without a choice point"
                return ("yes" if lab[1] else "no", op, mk)
            if lab[0] == "fails":
                return "the end of the loop fails the plan"
            if lab[0] == "body":
                return ("body", op, mk) if ph == "yes" and lab[1] == body and mk else "the body is executed at the wrong place"
            if lab[0] == "close":
                return (ph, False, mk) if ph in ("yes", "body", "no") else "the condition is closed before it is asked"
            if lab[0] == "undo":
                return (ph, op, False) if ph in ("body", "no") else "the bindings of the condition are undone before the body"
            return "something else is executed in a while loop"
        for t in g.explore(("start", False, False), step, lambda s: None if s[0] == "no" else "the loop ends too early"):
            ctx.bad(f, t, path=p, sub="flow")


@rule("code-body", "P13", floor=2)
def code_body(ctx):
    """A body compiles all its formulas, once each and in order."""
    f = need_method(ctx, BI, "visit_body")
    ast = ast_param(f)
    any_ = False
    for p in ctx.paths(f):
        if p.kind != "return":
            ctx.bad(f, "does not compile the body", path=p)
            continue
        ctx.ob()
        ls = walked(p, A(ast, "formulas"))
        if len(ls) != 1 or ls[0][1]["exhausted"] is None or is_reversed(ls[0][1]["src"]):
            ctx.bad(f, "does not compile all formulas in order", path=p, sub="all")
            continue
        for a, b in ls[0][1]["iters"]:
            any_ = True
            acc = [c for c in p.calls if a < c.i < b and (c.name == "accept" and c.args == (SELF,) or c.name.startswith("visit_"))]
            if len(acc) != 1 or not is_elem(acc[0].recv if acc[0].name == "accept" else acc[0].args[0], A(ast, "formulas")):
                ctx.bad(f, "a formula is not compiled exactly once", path=p, sub="each")
        out = [c for c in p.calls if c.name == "accept" and not any(a < c.i < b for _, l in ls for a, b in l["iters"])]
        if out or [e for e in p.events if e[0] == "setattr"]:
            ctx.bad(f, "more than the formulas is compiled", path=p, sub="more")
        if p.val != TAIL and not (p.val[0] == "call" and p.val[1][2] == "accept"):
            ctx.bad(f, "does not report where the generated code ends", path=p, sub="end")
    if not any_:
        ctx.bad(f, "compiles no formula", sub="none")


def is_reversed(src):
    return any(t == G("builtins.reversed") or t == G("builtins.sorted") for t in subterms(src))


# ------------------------------------------------------------- terms

def built(p, v, part, visitor=SELF):
    """v is what the visitor makes of the part."""
    return v == ("call", ("a", part, "accept"), (visitor,), v[-1]) if v[0] == "call" else False


def all_built(p, val, coll, visitor=SELF):
    """val is the sequence of what the visitor makes of each element of coll, in order."""
    vals = mapped(p, val, coll)
    if vals is None:
        return False
    ok = True
    for _, l in walked(p, coll):
        if is_reversed(l["src"]):
            ok = False
    return ok and all(v[0] == "call" and v[1][0] == "a" and v[1][2] == "accept" and v[2] == (visitor,) and
                      is_elem(v[1][1], coll) for v in vals)


@rule("build-term", "P13 P19 P24 P12", floor=9)
def build_term(ctx):
    """Compiling a term keeps its structure: literals their functor, all arguments and all annotations in order,
    lists their elements, linked lists head and tail, expressions their operator and operands in place, constants
    their value; a name stands for one variable within a plan, and different names for different ones."""
    build_term_of(ctx, BT, TERM_VISITS)
    for p in ctx.paths(need_method(ctx, BT, "__init__")):
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        ctx.check(st.get("variables") == param("variables"), ctx.prog.func(BT + ".__init__"), "the variables of the plan are not used", path=p)


@rule("build-pattern", "P05 P09 P13", floor=2)
def build_pattern(ctx):
    """The pattern of a replaced belief and that of an event to wait for are compiled like other terms; only in place
    of an expression the former matches anything."""
    for cls in (BE, BR):
        own = [n for n in TERM_VISITS if need_method(ctx, cls, n) is not need_method(ctx, BT, n)]
        build_term_of(ctx, cls, [n for n in own if n not in ("visit_unary_op", "visit_binary_op")])
    for n in ("visit_unary_op", "visit_binary_op"):
        f = need_method(ctx, BR, n)
        for p in ctx.paths(f):
            ctx.check(p.kind == "return" and p.val[0] == "new" and p.val[1] in (M + "Wildcard", M + "Var"), f,
                      "an expression of a replaced belief has to match the stored one", path=p)


TERM_VISITS = ["visit_literal", "visit_const", "visit_list", "visit_linked_list", "visit_unary_op", "visit_binary_op",
               "visit_variable"]


def build_term_of(ctx, cls, names):
    def paths(name):
        f = need_method(ctx, cls, name)
        return f, ast_param(f), [p for p in ctx.paths(f)] if name in names else []
    f, a, ps = paths("visit_literal")
    seen = set()
    for p in ps:
        ctx.ob()
        v = p.val
        if p.kind != "return" or v[0] != "new" or v[1] != M + "Literal":
            ctx.bad(f, "a literal is not compiled to a literal", path=p)
            continue
        if field(p, v, "functor") != A(a, "functor"):
            ctx.bad(f, "the functor is changed", path=p, sub="functor")
        for fld, coll in (("args", "terms"), ("annots", "annotations")):
            x = strip_conv(field(p, v, fld))
            if not all_built(p, x, A(a, coll)):
                ctx.bad(f, "%s are lost, changed or reordered" % ("arguments" if fld == "args" else "annotations"), path=p, sub=fld)
            elif mapped(p, x, A(a, coll)):
                seen.add(fld)
    if ps and seen != {"args", "annots"}:
        ctx.bad(f, "arguments or annotations are never compiled", sub="none")
    f, a, ps = paths("visit_const")
    for p in ps:
        ctx.check(p.kind == "return" and p.val == A(a, "value"), f, "a constant is changed", path=p)
    f, a, ps = paths("visit_list")
    for p in ps:
        ctx.check(p.kind == "return" and all_built(p, p.val, A(a, "terms")) and
                  (p.val[0] == "conv" and p.val[1] == "tuple" or p.val[0] == "tuple"), f,
                  "elements of a list are lost, changed or reordered, or it is no list term", path=p)
    f, a, ps = paths("visit_linked_list")
    for p in ps:
        v = p.val
        ok = p.kind == "return" and v[0] == "new" and v[1] == M + "LinkedList" and \
            built(p, field(p, v, "head"), A(a, "head")) and built(p, field(p, v, "tail"), A(a, "tail"))
        ctx.check(ok, f, "head and tail of a list are lost or changed", path=p)
    for name, expr, parts in (("visit_unary_op", "UnaryExpr", ("operand",)), ("visit_binary_op", "BinaryExpr", ("left", "right"))):
        f, a, ps = paths(name)
        for p in ps:
            v = p.val
            ok = p.kind == "return" and v[0] == "new" and v[1] == M + expr
            if ok:
                c = ctx.prog.cls(M + expr)
                init = c.methods["__init__"]
                flds = init.params[1:]
                vals = [field(p, v, n) for n in flds]
                ok = len(vals) == 1 + len(parts) and vals[0] == A(a, "operator", "value") and \
                    all(built(p, x, A(a, n)) for x, n in zip(vals[1:], parts)) and keeps(ctx, init)
            ctx.check(ok, f, "operator or operands of an expression are lost or exchanged", path=p)
    f, a, ps = paths("visit_variable")
    table = A(SELF, "variables")
    name = A(a, "name")
    kinds = set()
    for p in ps:
        ctx.ob()
        if p.kind != "return":
            ctx.bad(f, "a variable is not compiled", path=p)
            continue
        v = p.val
        stores = [e for e in p.events if e[0] == "setitem" and e[1] == table]
        sd = [c for c in p.calls_to("setdefault") if c.recv == table]
        under = eqf(p, name, const("_"))
        if v[0] == "new":
            kinds.add(v[1])
            if v[1] == M + "Wildcard":
                if under is not True:
                    ctx.bad(f, "a named variable becomes a wildcard", path=p, sub="wildcard")
            elif v[1] == M + "Var":
                if under is True:
                    ctx.bad(f, "an anonymous variable binds", path=p, sub="wildcard")
                if not (len(stores) == 1 and stores[0][2] == name and stores[0][3] == v):
                    ctx.bad(f, "the occurrences of a variable are different variables", path=p, sub="store")
                if not known_absent(p, table, name):
                    ctx.bad(f, "the occurrences of a variable are different variables", path=p, sub="lookup")
            else:
                ctx.bad(f, "a variable is compiled to something else", path=p)
        elif sd and v == sd[0].res:
            if sd[0].args[0] != name:
                ctx.bad(f, "the variable of another name is used", path=p, sub="lookup")
        elif v == ("i", table, name) or is_call(v, "get") and v[1][1] == table and v[2][0] == name:
            kinds.add("known")
        else:
            ctx.bad(f, "the variable of another name is used", path=p, sub="lookup")
        for e in stores:
            if e[2] != name or e[3] != v:
                ctx.bad(f, "another variable is remembered under the name", path=p, sub="store")
    if ps and M + "Var" not in kinds and not any("setdefault" in str(c.name) for p in ps for c in p.calls):
        ctx.bad(f, "no variable is ever made", sub="none")


def keeps(ctx, init):
    """The constructor stores every argument under its own name."""
    for p in ctx.paths(init):
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        if any(st.get(n) not in (param(n), ("conv", "tuple", param(n)), ("conv", "list", param(n))) for n in init.params[1:]):
            return False
    return True


def known_absent(p, table, name):
    """The path established that the table has no entry for the name."""
    for pr, pol, _ in p.facts():
        if pr == ("in", name, table) and pol is False:
            return True
        if pr[0] in ("is", "eq") and NONE in pr[1:] and pol and any(
                is_call(x, "get") and x[1][1] == table for x in pr[1:] if x[0] == "call"):
            return True
    return "KeyError" in excepts(p)


@rule("build-query", "P14 P19 P22 P15", floor=12)
def build_query(ctx):
    """Compiling a query keeps its meaning: and, or, not and unification become that query with the operands in
    order, comparisons and variables a query of the term; a literal becomes the action of exactly its functor and
    arity if there is one and a belief query otherwise; true and false their constants, everything else an error."""
    def paths(name):
        f = need_method(ctx, BQ, name)
        return f, ast_param(f), ctx.paths(f)

    def term_of(p, v, part):
        return is_term(p, v, part)

    def is_error(p):
        return p.kind == "raise" and is_call(p.val, "error")

    f, a, ps = paths("visit_literal")
    kinds = set()
    for p in ps:
        ctx.ob()
        v = p.val
        if p.kind != "return" or v[0] != "new":
            ctx.bad(f, "a literal gives no query", path=p)
            continue
        lk = [c for c in p.calls_to("lookup") if c.recv == A(SELF, "actions")]
        kinds.add(v[1])
        if len(lk) != 1 or lk[0].args != (A(a, "functor"), ("len", A(a, "terms"))):
            ctx.bad(f, "the action is not looked up by functor and number of arguments", path=p, sub="lookup")
            continue
        if v[1] == R_ + "ActionQuery":
            if field(p, v, "impl") != lk[0].res or not term_of(p, field(p, v, "term"), a) or "KeyError" in excepts(p):
                ctx.bad(f, "the action query has another term or implementation", path=p, sub="action")
        elif v[1] == R_ + "TermQuery":
            if eqf(p, lk[0].res, NONE):
                continue        # what is registered is never None
            if not term_of(p, field(p, v, "term"), a) or "KeyError" not in excepts(p):
                ctx.bad(f, "an existing action is taken for a belief, or another term is queried", path=p, sub="term")
        else:
            ctx.bad(f, "a literal becomes another query", path=p)
    if kinds != {R_ + "ActionQuery", R_ + "TermQuery"}:
        ctx.bad(f, "actions or beliefs are never queried", sub="kinds")

    f, a, ps = paths("visit_const")
    got = set()
    for p in ps:
        ctx.ob()
        if is_error(p):
            got.add("error")
            continue
        v = p.val
        val = A(a, "value")
        t = None
        for pr, pol, _ in p.facts():
            if pr[0] in ("is",) and val in pr[1:]:
                o = pr[2] if pr[1] == val else pr[1]
                if o in (TRUE, FALSE) and pol:
                    t = o == TRUE
        if t is None and typefact(p, val, "builtins.bool"):
            t = p.fact(("truth", val))
        if p.kind != "return" or v[0] != "new" or v[1] not in (R_ + "TrueQuery", R_ + "FalseQuery") or t is None or \
                (v[1] == R_ + "TrueQuery") != t:
            ctx.bad(f, "a constant condition gets another meaning", path=p)
            continue
        got.add(v[1])
    if len(got) != 3:
        ctx.bad(f, "true, false and other constants are not told apart", sub="kinds")

    f, a, ps = paths("visit_binary_op")
    names = members(ctx, M + "BinaryOp")
    op = A(a, "operator")
    for m in names:
        n = m[1].rsplit(".", 1)[-1]
        ctx.ob(text="query operator " + n)
        mine = [p for p in ps if admits(p, op, m, names)]
        if not mine:
            ctx.bad(f, "operator %s is not compiled" % n, sub=n)
        for p in mine:
            v = p.val
            if n in ("op_and", "op_or", "op_unify"):
                cls = {"op_and": "AndQuery", "op_or": "OrQuery", "op_unify": "UnifyQuery"}[n]
                ok = p.kind == "return" and v[0] == "new" and v[1] == R_ + cls
                if ok:
                    l, r = field(p, v, "left"), field(p, v, "right")
                    if n == "op_unify":
                        ok = term_of(p, l, A(a, "left")) and term_of(p, r, A(a, "right"))
                    else:
                        ok = built(p, l, A(a, "left")) and built(p, r, A(a, "right"))
                if not ok:
                    ctx.bad(f, "operator %s does not become its query" % n, path=p, sub=n)
            else:
                comp = truthy(p, A(op, "value", "comp_op"))
                if comp is not True:
                    if not (is_error(p) or p.calls_to("error")):
                        ctx.bad(f, "an operator that is no condition is accepted as one", path=p, sub="error")
                    continue
                if not (p.kind == "return" and v[0] == "new" and v[1] == R_ + "TermQuery" and term_of(p, field(p, v, "term"), a)):
                    ctx.bad(f, "a comparison does not become a query of itself", path=p, sub="comparison")
                if p.calls_to("error"):
                    ctx.bad(f, "a comparison is refused as condition", path=p, sub="comparison")
    if not any(truthy(p, A(op, "value", "comp_op")) is True for p in ps):
        ctx.bad(f, "comparisons are not accepted", sub="comparison")

    f, a, ps = paths("visit_unary_op")
    names = members(ctx, M + "UnaryOp")
    op = A(a, "operator")
    for m in names:
        n = m[1].rsplit(".", 1)[-1]
        ctx.ob(text="query operator " + n)
        for p in [p for p in ps if admits(p, op, m, names)]:
            if n == "op_not":
                if not (p.kind == "return" and p.val[0] == "new" and p.val[1] == R_ + "NotQuery" and
                        built(p, field(p, p.val, "query"), A(a, "operand"))):
                    ctx.bad(f, "not does not become a negation of its operand", path=p, sub=n)
            elif not is_error(p):
                ctx.bad(f, "a number is accepted as condition", path=p, sub="error")
    for n in ("visit_list", "visit_linked_list"):
        f, a, ps = paths(n)
        for p in ps:
            ok = is_error(p) or p.kind == "return" and p.val[0] == "call" and p.val[1] == ("a", SELF, "visit_list")
            ctx.check(ok, f, "a list is accepted as condition", path=p)
    f, a, ps = paths("visit_variable")
    for p in ps:
        v = p.val
        ctx.check(p.kind == "return" and v[0] == "new" and v[1] == R_ + "TermQuery" and term_of(p, field(p, v, "term"), a), f,
                  "a variable as condition is not queried for its value", path=p)
    init = need_method(ctx, BQ, "__init__")
    ctx.check(keeps(ctx, init), init, "variables, actions or log of the compiler are not kept")
    for c in ("AndQuery", "OrQuery", "UnifyQuery", "NotQuery", "ActionQuery", "TermQuery"):
        init = need_method(ctx, R_ + c, "__init__")
        ctx.check(keeps(ctx, init), init, "parts of the query are not kept")


@rule("build-event", "P09 P15 P05", floor=3)
def build_event(ctx):
    """A pattern of an event to wait for has the trigger, goal type and term of its text, over variables of its own,
    and must not contain expressions; the pattern of a replaced belief has variables of its own as well."""
    f = need_method(ctx, BE, "visit_event")
    a = ast_param(f)
    for p in ctx.paths(f):
        ctx.ob()
        v = p.val
        if p.kind != "return" or v[0] != "new" or v[1] != R_ + "Event":
            ctx.bad(f, "gives no event", path=p)
            continue
        # constant expressions of the text are evaluated first, as in a program
        srcs = [c.res for c in p.calls if (c.name == "accept" and c.recv == a and c.args and c.args[0][0] == "new" and c.args[0][1] == FOLD)
                or (c.name == "visit_event" and c.args == (a,) and c.recv and c.recv[0] == "new" and c.recv[1] == FOLD)]
        s = next((s for s in srcs if field(p, v, "trigger") == A(s, "trigger")), None)
        if s is None or field(p, v, "goal_type") != A(s, "goal_type") or not built(p, field(p, v, "head"), A(s, "head")):
            ctx.bad(f, "trigger, goal type or term are not those of the text", path=p, sub="parts")
    for n in ("visit_unary_op", "visit_binary_op"):
        f = need_method(ctx, BE, n)
        for p in ctx.paths(f):
            ctx.check(p.kind == "raise", f, "an expression is accepted in an event to wait for", path=p)
    for cls in (BE, BR):
      init = need_method(ctx, cls, "__init__")
      for p in ctx.paths(init):
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        v = st.get("variables")
        ok = v is not None and v[0] == "new" or any(c.name == "__init__" and len(c.args) >= 1 and c.args[-1][0] == "new" for c in p.calls)
        ctx.check(ok, init, "the variables of the pattern are shared", path=p)
    init = need_method(ctx, R_ + "Event", "__init__")
    ctx.check(keeps(ctx, init), init, "trigger, goal type or term are not kept")
    init = need_method(ctx, R_ + "Waiter", "__init__")
    ctx.check(keeps(ctx, init), init, "event and deadline are not kept")
