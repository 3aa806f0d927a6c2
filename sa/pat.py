"""Patterns over paths shared by the rules."""
from .core import strip_conv, param, mentions
from .flow import NONE, TRUE, FALSE, const, show, subterms

SCOPE, STACK, SELF, LEFT, RIGHT, TERM, MEMO = (param(n) for n in ("scope", "stack", "self", "left", "right", "term", "memo"))


def succeeded(p, v=None):
    """Does the path return true?  A call result that is returned undecided
    counts: the path then ends in success when that call succeeds."""
    v = p.val if v is None else v
    if v == TRUE:
        return True
    if v[0] in ("call",):
        return p.fact(("truth", v)) is not False
    return False


def failed(p, v=None):
    v = p.val if v is None else v
    if v in (FALSE, NONE):
        return True
    return v[0] == "call" and p.fact(("truth", v)) is False


def true_calls(p, name, before=None):
    """Calls of name whose result is true on this path (decided by a branch, or
    returned as the value)."""
    out = []
    for c in p.calls_to(name):
        if p.fact(("truth", c.res)) is True or (p.kind == "return" and p.val == c.res and p.fact(("truth", c.res)) is not False):
            out.append(c)
    return out


def false_calls(p, name):
    return [c for c in p.calls_to(name) if p.fact(("truth", c.res)) is False]


def typefact(p, v, *classes):
    """True/False/None: what the path established about isinstance(v, classes)."""
    r = None
    for pred, pol, i in p.facts():
        if pred[0] == "isinst" and pred[1] == v:
            names = set(pred[2])
            if names == set(classes) or (pol and names <= set(classes)) or (not pol and set(classes) <= names):
                r = pol
        elif pred[0] in ("is", "eq") and len(classes) == 1:
            t = ("call", ("g", "builtins.type"), (v,), 0)
            g = ("g", classes[0])
            if {pred[1], pred[2]} == {t, g}:
                r = pol
        elif pred[0] == "truth" and pred[1][0] == "call" and len(classes) == 1 and pred[1][1][0] == "g" and \
                pred[1][1][1] in PREDICATES and pred[1][2] == (v,):
            if PREDICATES[pred[1][1][1]] == set(classes):
                r = pol
    return r


PREDICATES = {
    "agentspeak.is_literal": {"agentspeak.Literal"},
    "agentspeak.is_string": {"builtins.str"},
    "agentspeak.is_list": {"builtins.tuple", "agentspeak.LinkedList"},
}


def loops(p):
    """Loop id -> dict(src, exhausted, broke, iters=[(start, end)])"""
    out = {}
    for i, e in enumerate(p.events):
        if e[0] == "loop":
            out[e[1]] = {"src": e[2], "start": i, "exhausted": None, "broke": None, "iters": [], "node": e[3]}
        elif e[0] == "iter" and e[1] in out:
            out[e[1]]["iters"].append([i, len(p.events)])
        elif e[0] == "enditer" and e[1] in out and out[e[1]]["iters"]:
            out[e[1]]["iters"][-1][1] = i
        elif e[0] == "endloop" and e[1] in out:
            if e[2] == "exhausted":
                out[e[1]]["exhausted"] = i
            else:
                out[e[1]]["broke"] = i
    return out


def is_zip(src):
    return src is not None and src[0] == "call" and src[1] == ("g", "builtins.zip")


def is_range(src):
    return src is not None and src[0] == "call" and src[1] == ("g", "builtins.range")


def is_enum(src):
    return src is not None and src[0] == "call" and src[1] == ("g", "builtins.enumerate")


def loop_sources(src):
    """The collections a loop walks completely."""
    if src is None:
        return []
    src = strip_conv(src)
    if is_zip(src):
        return [strip_conv(a) for a in src[2]]
    if is_enum(src):
        return [strip_conv(src[2][0])]
    if src[0] == "call" and src[1] == ("g", "builtins.sorted") or src[0] == "call" and src[1] == ("g", "builtins.reversed"):
        return loop_sources(src[2][0])
    if is_range(src) and len(src[2]) == 1 and src[2][0][0] == "len":
        return [strip_conv(src[2][0][1])]
    if src[0] == "call" and src[1][0] == "a" and src[1][2] == "copy" and not src[2]:
        return loop_sources(src[1][1])
    return [src]


def is_elem(v, coll):
    """Is v one element of coll (loop variable, or coll[i] with a loop index)?"""
    if v[0] == "elem":
        return strip_conv(v[1]) == coll
    if v[0] == "i" and strip_conv(v[1]) == coll and isinstance(v[2], tuple):
        return v[2][0] in ("elem", "index", "phi") or v[2][0] == "bin"
    return False


def elem_key(v):
    """What ties two elements to the same position."""
    if v[0] == "elem":
        return ("loop", v[2])
    if v[0] == "i":
        k = v[2]
        if k[0] in ("elem",):
            return ("loop", k[2])
        if k[0] == "index":
            return ("loop", k[2])
        return k
    return None


def walked(p, coll):
    """Loops over coll on this path."""
    return [(lid, l) for lid, l in loops(p).items() if coll in loop_sources(l["src"])]


def while_walk(p, coll, lid, l):
    return l["src"] is None


def mapped(p, val, coll):
    """If val is a list/tuple/set built by appending one value per element of
    coll, the appended values of this path (possibly none); otherwise None."""
    val = strip_conv(val)
    if val[0] != "new":
        return None
    ws = walked(p, coll)
    if not ws:
        return None
    for lid, l in ws:
        if l["exhausted"] is None:
            continue
        vals, ok = [], True
        for a, b in l["iters"]:
            app = [c for c in p.calls if a < c.i < b and c.recv == val and c.name in ("append", "add")]
            if len(app) != 1:
                ok = False
                break
            vals.append(app[0].args[0])
        outside = [c for c in p.calls if c.recv == val and c.name in ("append", "add", "extend", "insert", "update")
                   and not any(a < c.i < b for a, b in l["iters"])]
        if ok and not outside:
            return vals
    return None


def new_fields(p, val):
    """Constructor arguments of an object made on this path."""
    for e in p.events:
        if e[0] == "new" and e[4] == val:
            return e
    return None


def is_call(v, name, args=None):
    """Is the origin v the result of calling `name` (function or method form)?"""
    if v[0] != "call":
        return False
    fv, a = v[1], tuple(x for x in v[2] if not (isinstance(x, tuple) and x and x[0] == "kw"))
    if fv[0] == "a":
        if fv[2] != name:
            return False
        from .core import TERM_OPS
        if name in TERM_OPS and len(a) < TERM_OPS[name]:
            a = (fv[1],) + a
        elif args is not None and len(args) == len(a) + 1:
            a = (fv[1],) + a
    elif fv[0] == "g":
        if fv[1].rsplit(".", 1)[-1] != name:
            return False
    else:
        return False
    return args is None or a == tuple(args)


def deref_of(v, var, scope):
    """v is the value the scope holds for var."""
    return v == ("i", scope, var) or is_call(v, "deref", (var, scope)) or is_call(v, "evaluate", (var, scope)) or \
        (v[0] == "call" and v[1] == ("a", scope, "get") and v[2][:1] == (var,))


def excepts(p):
    return [e[1].rsplit(".", 1)[-1] for e in p.events if e[0] == "except"]


# ------------------------------------------------------------ generators

R_ = "agentspeak.runtime."
AGENT, INTENTION = param("agent"), param("intention")


def loops_over(p, test):
    """Loops of the path whose source satisfies test(src, loop)."""
    return [(lid, l) for lid, l in loops(p).items() if l["src"] is not None and test(l["src"])]


def inside(l, i):
    """Index of the iteration of loop l that contains event i, or None."""
    for n, (a, b) in enumerate(l["iters"]):
        if a < i < b:
            return n
    return None


def spans(p, lid, a, b):
    """[(loop, start, end)]: an iteration and the later ones that go on with its element."""
    el = p.events[a][2]
    return [(lid, a, b)] + [(n, x, y) for n, l in loops(p).items() if l["start"] > b for x, y in l["iters"]
                            if any(t == el for t in subterms(p.events[x][2]))]


def cut(p, a, b):
    """Whether a later loop that goes on with the element of the iteration ends before its last element."""
    el = p.events[a][2]
    return any(l["start"] > b and l["exhausted"] is None and any(any(t == el for t in subterms(p.events[x][2])) for x, _ in l["iters"])
               for l in loops(p).values())


def during(p, a, b):
    """The events of an iteration and of the later iterations that go on with its element (it was put into a list that
    is walked afterwards)."""
    el = p.events[a][2]
    out = list(p.events[a:b])
    for l in loops(p).values():
        if l["start"] > b:
            for x, y in l["iters"]:
                if any(t == el for t in subterms(p.events[x][2])):
                    out += p.events[x:y]
    return out


def is_execute(v, query, agent=AGENT, intention=INTENTION):
    """v = query.execute(agent, intention)"""
    return v[0] == "call" and v[1] == ("a", query, "execute") and v[2] == (agent, intention)


def grp(v):
    """(functor, arity) of v: literal_group() or the tuple written out."""
    return {("call", ("a", v, "literal_group"), (), 0), ("tuple", (A_(v, "functor"), ("len", A_(v, "args"))))}


def A_(b, n):
    return ("a", b, n)


def no_result(v):
    return v == NONE or v is None


def field(p, obj, name, upto=None):
    """Value of obj.name on this path before event upto: assigned, or given by the constructor."""
    for e in reversed(p.events[:upto]):
        if e[0] == "setattr" and e[1] == obj and e[2] == name:
            return e[3]
    init = p.flow.newfields.get(obj, {})
    if name in init:
        return init[name]
    return A_(obj, name)


def carried(p, v):
    """The values a variable may hold after a loop: from before it and from its iterations."""
    if v[0] != "phi":
        return {v}
    l = p.flow.loops.get(v[1], {})
    out = set()
    for k, vs in l.get("back", {}).items():
        if k == v[2] or isinstance(k, tuple) and len(k) == 2 and k[1] == v[2]:
            out |= set(vs)
    for k, x in l.get("init", {}).items():
        if k == v[2] or isinstance(k, tuple) and len(k) == 2 and k[1] == v[2]:
            out.add(x)
    return out or {v}


def made_in(p, val, a, b):
    """Is the value made by an event or expression inside the iteration?  Dict displays leave no event: the engine numbers
    values in order of evaluation, so compare with values before the iteration."""
    for e in p.events[a:b]:
        if e[0] == "new" and e[4] == val:
            return True
    nums = [t[-1] for e in p.events[:a + 1] for x in e[1:] if isinstance(x, tuple) for t in subterms(x)
            if t and isinstance(t[-1], int) and t[0] in ("call", "new", "elem")]
    nums += [e[1] for e in p.events[:a + 1] if e[0] == "loop" and isinstance(e[1], int)]
    return val[0] == "new" and isinstance(val[2], int) and (not nums or val[2] > max(nums))


def hit(p, c):
    """Did this call come out true (branch taken, loop entered)?"""
    r = p.fact(("truth", c.res))
    if r is None:
        for pred, pol, i in p.facts():
            if pred[0] in ("is", "eq") and c.res in pred[1:]:
                other = pred[2] if pred[1] == c.res else pred[1]
                if other == TRUE:
                    r = pol
                elif other in (FALSE, NONE):
                    r = not pol
    return r
