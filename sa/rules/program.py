"""Source files as a whole: parts, included files, recorded errors, command line tools (P15 P16 P21 P26)."""
import ast
from ..core import rule, A, AnalysisBroken
from ..model import Func
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .grammar import homes, home, constant

M, PA, LX, RT = "agentspeak.", "agentspeak.parser.", "agentspeak.lexer.", "agentspeak.runtime."
FIELDS = ("beliefs", "rules", "goals", "plans")
TOKENS, LOG, FILE, INCLUDED, DIRECTIVE = (param(n) for n in ("tokens", "log", "filename", "included_files", "directive"))
ERRORS = {"AggregatedError", "AslError"}


def params(f, *names):
    """The parameters of f by position, whatever they are called."""
    return [param(n) for n in (f.params + list(names)[len(f.params):])[:len(names)]]


# ------------------------------------------------------------- parts of a program

class Parts(object):
    """What one path adds to the lists of the program it builds."""

    def __init__(self, ctx, f, p, homes_):
        self.one, self.all, self.other = [], [], []
        agents = [e[4] for e in p.events if e[0] == "new" and e[4][1] == PA + "AstAgent"]
        self.agent = agents[0] if agents else None
        ls = loops(p)
        for c in p.calls:
            if c.recv is None or c.name not in ("append", "extend", "insert", "clear", "pop", "remove"):
                continue
            h = home(p, c.recv, homes_)
            if not h or h[0] != self.agent or h[1] not in FIELDS:
                continue
            if c.name == "extend" and len(c.args) == 1:
                self.all.append((h[1], strip_conv(c.args[0]), c.i))
                continue
            if c.name == "append" and len(c.args) == 1:
                w = [l for l in ls.values() if l["src"] is not None and inside(l, c.i) is not None]
                if w and c.args[0][0] == "elem" and strip_conv(w[-1]["src"]) == strip_conv(c.args[0][1]) and w[-1]["exhausted"] is not None:
                    t = (h[1], strip_conv(w[-1]["src"]))
                    if not any(x[:2] == t for x in self.all):
                        self.all.append(t + (c.i,))
                    continue
                self.one.append((h[1], c.args[0], c.i))
                continue
            self.other.append((h[1], c.name, c.i))
        for l in ls.values():
            # an empty walk over a part adds all of it
            if l["src"] is not None and l["exhausted"] is not None and not l["iters"]:
                s = strip_conv(l["src"])
                if s[0] == "a" and s[2] in FIELDS and not any(x[1] == s for x in self.all):
                    self.all.append((s[2], s, l["start"]))
        for i, e in enumerate(p.events):
            if e[0] == "setattr" and e[1] == self.agent and e[2] in FIELDS:
                v = e[3]
                if v[0] == "bin" and v[1] == "+" and v[3][0] == "a":
                    h = home(p, v[2], homes_)
                    prev = v[2]
                    if h == (self.agent, e[2]) or prev == A(self.agent, e[2]) or prev[0] in ("phi", "bin"):
                        self.all.append((e[2], strip_conv(v[3]), i))
                        continue
                if v[0] == "new" and v[1] == "builtins.list" or v in (("conv", "list", ("tuple", ())), ("list", ())):
                    continue
                if v == A(self.agent, e[2]) or home(p, v, homes_) == (self.agent, e[2]):
                    continue
                self.other.append((e[2], "=", i))


def errors_logged(p, log):
    return [c for c in p.calls if c.name in ("error", "exception") and c.recv == log]


SINGLE = {"parse_initial_goal": "goals", "parse_plan": "plans"}


@rule("agent-parts", "P21 P15 P17 P12", floor=20)
def agent_parts(ctx):
    """One round of parse_agent puts what it parsed into its own list, once: beliefs, rules, goals and plans by kind,
    and all four lists of an included file or a block; a round that adds nothing records an error.  What is returned
    has been validated."""
    f = ctx.prog.func(PA + "parse_agent")
    FN, TK, LG, INC, D = params(f, "filename", "tokens", "log", "included_files", "directive")
    its = ctx.iterations(f)
    paths = ctx.paths(f)
    hs = homes(list(its) + list(paths), None)
    subs, filled = 0, set()
    for p in its:
        ctx.ob()
        a = Parts(ctx, f, p, hs)
        if a.agent is None:
            raise AnalysisBroken("parse_agent builds no AstAgent")
        start = max([i for i, e in enumerate(p.events) if e[0] == "iter"] or [0])
        if a.other:
            ctx.bad(f, "%s of the program are changed by %s" % a.other[0][:2], path=p, sub="lists")
        got = [x for x in a.one if x[2] > start]
        sub = [c for c in p.calls if c.i > start and c.qual in (PA + "parse", PA + "parse_agent")]
        want = []
        for c in p.calls:
            if c.i < start or c.qual is None or not c.qual.startswith(PA):
                continue
            node = ("i", c.res, const(1))
            if c.name in SINGLE:
                want.append((SINGLE[c.name], node))
            elif c.name == "parse_rule_or_belief":
                t = typefact(p, node, PA + "AstRule")
                if t is None:
                    t2 = typefact(p, node, PA + "AstLiteral")
                    t = None if t2 is None else not t2
                want.append((("rules" if t else "beliefs") if t is not None else None, node))
        filled |= {x[0] for x in got}
        for field_, node in want:
            mine = [x for x in got if x[1] == node]
            if len(mine) != 1 or field_ is not None and mine[0][0] != field_:
                ctx.bad(f, "%s that was read is not added once to the %s" % (show(node)[:60], field_ or "program"), path=p, sub=field_ or "part")
        for x in got:
            if x[1] not in [n for _, n in want]:
                ctx.bad(f, "%s is added to the %s" % (show(x[1])[:60], x[0]), path=p, sub=x[0])
        for c in sub:
            subs += 1
            for name in FIELDS:
                n = len([x for x in a.all if x[0] == name and x[1] == A(c.res, name)])
                if n != 1:
                    ctx.bad(f, "the %s of an included file or block are added %s" % (name, "never" if n == 0 else "more than once"), path=p, sub=name)
        for x in a.all:
            if x[2] > start and x[1] not in [A(c.res, n) for c in sub for n in FIELDS] or x[1][0] == "a" and x[1][2] != x[0]:
                ctx.bad(f, "%s is added to the %s" % (show(x[1])[:60], x[0]), path=p, sub=x[0])
        if not want and not sub and not [c for c in errors_logged(p, LG) if c.i > start]:
            ctx.bad(f, "something that was read is dropped without an error", path=p, sub="dropped")
    if not subs:
        ctx.bad(f, "no block or included file is ever parsed", sub="sub")
    for name in FIELDS:
        if name not in filled:
            ctx.bad(f, "nothing that is read is ever added to the %s" % name, sub=name)
    for p in paths:
        if p.kind != "return":
            continue
        ctx.ob()
        a = Parts(ctx, f, p, hs)
        vs = [c for c in p.calls if c.qual == PA + "validate" and c.args[:2] == (a.agent, LG)]
        if not vs or p.val not in (vs[-1].res, a.agent):
            ctx.bad(f, "the program that is returned has not been checked", path=p, sub="validate")


NORM = ("os.path.normpath", "os.path.abspath", "os.path.realpath")


def normalized(v):
    return v[0] == "call" and v[1][0] == "g" and v[1][1] in NORM


def norm_of(v):
    return (v[1][1], v[2][0]) if normalized(v) else (None, v)


def members(v):
    """The values a set is made of: (elements, sets)"""
    v = strip_conv(v)
    if v[0] == "bin" and v[1] in ("|", "+"):
        a, b = members(v[2]), members(v[3])
        return a[0] + b[0], a[1] + b[1]
    if v[0] == "call" and v[1][0] == "a" and v[1][2] == "union":
        r = members(v[1][1])
        for x in v[2]:
            y = members(x)
            r = (r[0] + y[0], r[1] + y[1])
        return r
    if v[0] == "conv":
        return members(v[2])
    if v[0] in ("tuple", "list", "set"):
        return list(v[1]), []
    return [], [v]


@rule("include", "P21 P15", floor=6)
def include(ctx):
    """An include directive reads the file whose name stands in the string, relative to the including file; a file
    that is being included already, or that does not exist, is an error; the tokens of the opened file are parsed with
    the same log.  A block is parsed from the same tokens up to its own end."""
    f = ctx.prog.func(PA + "parse_agent")
    FN, TK, LG, INC, D = params(f, "filename", "tokens", "log", "included_files", "directive")
    seen = {"include": 0, "missing": 0, "recursive": 0, "begin": 0}
    raises = [p for p in ctx.paths(f) if p.kind == "raise"]
    for p in list(ctx.iterations(f)) + raises:
        start = max([i for i, e in enumerate(p.events) if e[0] == "iter"] or [0])
        opens = [c for c in p.calls if c.i > start and c.name == "open" and c.recv is None or c.i > start and c.qual in ("io.open", "codecs.open")]
        subs = [c for c in p.calls if c.i > start and c.qual in (PA + "parse", PA + "parse_agent")]
        ins = [(pr, pol, i) for pr, pol, i in p.facts() if pr[0] == "in" and i > start and mentions(pr[1], FN) and not is_lexeme(pr[1])]
        if not opens and not subs and not ins:
            continue
        ctx.ob()
        caught = [e for i, e in enumerate(p.events) if i > start and e[0] == "except" and e[1].rsplit(".", 1)[-1] in
                  ("IOError", "OSError", "FileNotFoundError", "EnvironmentError", "Exception")]
        logged = [c for c in errors_logged(p, LG) if c.i > start] or p.kind == "raise"
        if opens:
            op = opens[0]
            name = op.args[0]
            base = norm_of(name)[1]
            strings = [t for t in subterms(base) if is_call(t, "parse_string")]
            if not strings or not all(is_lexeme(t[2][-1]) for t in strings):
                ctx.bad(f, "opens %s, which is not the file named in the directive" % show(name)[:80], path=p, sub="name")
                continue
            dirs = [t for t in subterms(base) if t[0] == "call" and t[1] == ("g", "os.path.dirname") or t[0] == "i" and t[1][0] == "call" and t[1][1] == ("g", "os.path.split")]
            join = [t for t in subterms(base) if t[0] == "call" and t[1] == ("g", "os.path.join")]
            if not any(mentions(t, FN) for t in dirs) or not join or not any(
                    any(mentions(x, FN) for x in t[2][:1]) and any(mentions(x, strings[0]) for x in t[2][1:]) for t in join):
                ctx.bad(f, "the file is not looked up relative to the including one: %s" % show(name)[:80], path=p, sub="relative")
            tests = [(pr, pol) for pr, pol, i in ins if i < op.i]
            hit = [pr for pr, pol in tests if pol is False and norm_of(pr[1])[1] == base]
            if not hit:
                ctx.bad(f, "a file is opened without asking whether it is being included", path=p, sub="recursive")
            else:
                elems, sets = members(hit[0][2])
                if INC not in sets:
                    ctx.bad(f, "files that include this one are not looked at", path=p, sub="recursive")
            if caught:
                other = any(pr[0] == "eq" and ("g", "errno.ENOENT") in pr[1:] and not pol for pr, pol, i in p.facts())
                logged = [c for c in errors_logged(p, LG) if c.i > op.i]
                if other and not logged and p.kind == "raise":
                    continue
                seen["missing"] += 1
                if not logged or subs:
                    ctx.bad(f, "a missing file is no error", path=p, sub="missing")
                continue
            if p.kind == "raise":
                continue
            seen["include"] += 1
            if len(subs) != 1:
                ctx.bad(f, "the included file is parsed %d times" % len(subs), path=p, sub="parse")
                continue
            c = subs[0]
            toks = new_fields(p, c.args[1])
            if not toks or toks[4][1] != LX + "TokenStream":
                ctx.bad(f, "the included file is not read", path=p, sub="tokens")
                continue
            targs = list(toks[2]) + [v for k, v in toks[3]]
            src = targs[0] if targs else None
            kw = dict(toks[3])
            src = kw.get("source", src)
            line = kw.get("firstline", toks[2][2] if len(toks[2]) > 2 else const(1))
            lg = kw.get("log", toks[2][1] if len(toks[2]) > 1 else None)
            if src != op.res and not (src is not None and src[0] in ("i", "call") and mentions(src, op.res)):
                ctx.bad(f, "another file than the opened one is parsed", path=p, sub="tokens")
            if lg != LG or c.args[2] != LG:
                ctx.bad(f, "errors in the included file are not recorded where the others are", path=p, sub="log")
            if line != const(1):
                ctx.bad(f, "the first line of the included file is line %s" % show(line), path=p, sub="line")
            if norm_of(c.args[0])[1] != base:
                ctx.bad(f, "the included file is parsed under another name", path=p, sub="filename")
            elems, sets = members(c.args[3]) if len(c.args) > 3 else ([], [])
            if INC not in sets:
                ctx.bad(f, "the included file is parsed without the files that include it", path=p, sub="included")
            if hit:
                # what parse_agent puts into the set when it starts on that file
                own = own_entry(ctx, f, FN, INC)
                tested = [hit[0][1]]
                entry = [substitute(x, FN, c.args[0]) for x in own] + [x for x in elems if not mentions(x, FN) or x == c.args[0]]
                if not any(idem(x) == idem(tested[0]) for x in entry):
                    ctx.bad(f, "a file that includes itself is not recognised: %s is looked for among %s" % (
                        show(tested[0])[:60], ", ".join(show(x)[:60] for x in entry) or "nothing"), path=p, sub="recursive")
            if len(c.args) > 4 and c.args[4] != NONE:
                ctx.bad(f, "an included file is parsed up to the end of a block", path=p, sub="block")
        elif subs:
            seen["begin"] += 1
            c = subs[0]
            n = list(c.args) + [NONE] * 5
            if n[0] != FN or n[1] != TK or n[2] != LG or INC not in members(n[3])[1]:
                ctx.bad(f, "a block is not parsed from the tokens that follow, with the same log and files", path=p, sub="begin")
            if len(subs) != 1 or n[4] in (NONE, FALSE) or n[4][0] == "p" or n[4][0] == "c" and not n[4][2]:
                ctx.bad(f, "a block is not parsed once, up to its own end", path=p, sub="begin")
        elif any(pol for pr, pol, i in ins):
            seen["recursive"] += 1
            if not logged:
                ctx.bad(f, "including a file that is being included is no error", path=p, sub="recursive")
    for k, n in seen.items():
        if not n:
            ctx.bad(f, "there is no path for the case '%s'" % k, sub=k)
    # the members that the file itself is tested against later
    if not own_entry(ctx, f, FN, INC):
        ctx.bad(f, "a file is not among the files being included while it is parsed", sub="self")


def is_lexeme(v):
    return v[0] == "a" and v[2] == "lexeme"


def own_entry(ctx, f, FN, INC):
    """Elements added to the set of included files for the file itself."""
    out = []
    for p in list(ctx.iterations(f)):
        for pr, pol, i in p.facts():
            if pr[0] == "in" and INC in members(pr[2])[1]:
                out += [x for x in members(pr[2])[0] if mentions(x, FN)]
    for p in ctx.iterations(f):
        for c in p.calls:
            if c.qual in (PA + "parse", PA + "parse_agent") and len(c.args) > 3:
                out += [x for x in members(c.args[3])[0] if mentions(x, FN)]
    return list(dict.fromkeys(out))


def substitute(v, x, y):
    if v == x:
        return y
    if isinstance(v, tuple):
        return tuple(substitute(e, x, y) if isinstance(e, tuple) else e for e in v)
    return v


def serial_free(v):
    if isinstance(v, tuple):
        if v and v[0] == "call":
            return ("call", serial_free(v[1]), serial_free(v[2]), 0)
        return tuple(serial_free(x) if isinstance(x, tuple) else x for x in v)
    return v


def idem(v):
    """Normalising a path twice gives the same as once."""
    while normalized(v) and normalized(v[2][0]) and v[1] == v[2][0][1]:
        v = v[2][0]
    return serial_free(v)


@rule("parse", "P15 P21", floor=2)
def parse(ctx):
    """parse() gives what parse_agent gives for the same file, tokens, log, included files and block; a source that
    ends too early is an error."""
    f = ctx.prog.func(PA + "parse")
    ps = params(f, "filename", "tokens", "log", "included_files", "directive")
    early = 0
    for p in ctx.paths(f):
        ctx.ob()
        cs = [c for c in p.calls if c.qual == PA + "parse_agent"]
        if p.kind == "return":
            if len(cs) != 1 or p.val != cs[0].res or [cs[0].arg(i, n) for i, n in enumerate(("filename", "tokens", "log", "included_files", "directive"))] != ps:
                ctx.bad(f, "another program than that of the source is returned", path=p, sub="result")
        else:
            if "StopIteration" in excepts(p) or "Exception" in excepts(p):
                early += 1
                if not errors_logged(p, ps[2]):
                    ctx.bad(f, "a source that ends too early is not recorded as an error", path=p, sub="end")
    if not early:
        ctx.bad(f, "a source that ends too early is not reported", sub="end")


# ------------------------------------------------------------- the error log

def keyword_of(p, v, key):
    """v is the keyword argument key of the function, or what stands for a missing one."""
    v = strip_conv(v)
    if v == param(key):
        return True
    if v[0] == "call" and v[1][0] == "a" and v[1][1] == param("kwargs") and v[1][2] in ("get", "pop", "setdefault"):
        return v[2][:1] == (const(key),) and (len(v[2]) < 2 or v[2][1] in EMPTY)
    if v == ("i", param("kwargs"), const(key)):
        return True
    return v in EMPTY and any(pr == ("in", const(key), param("kwargs")) and not pol for pr, pol, i in p.facts())


EMPTY = (NONE, ("tuple", ()), ("list", ()), ("conv", "list", ("tuple", ())), ("conv", "tuple", ("tuple", ())))


def passed(v):
    """The pairs of a dictionary that is built at once, None if it is something else."""
    if v is None:
        return None
    if v[0] == "dict":
        return {k[2]: x for k, x in v[1] if k[0] == "c"}
    if v[0] == "call" and v[1][0] == "g" and v[1][1].rsplit(".", 1)[-1] == "dict":
        return {k: x for k, x in v[3]} if len(v) > 3 and isinstance(v[3], tuple) else {x[1]: x[2] for x in v[2] if x[0] == "kw"}
    return None


LEVELS = {"error": "error", "exception": "exception", "warning": "warning", "info": "info"}


@rule("log-count", "P15 P26 P18", floor=8)
def log_count(ctx):
    """Recording an error counts it, hands it to the logger with its location and gives an exception to raise (or raises
    it when there are too many); throw() raises exactly if errors were counted; warnings and notes are no errors."""
    N, MAX, W = A(SELF, "num_errors"), A(SELF, "max_errors"), A(SELF, "num_warnings")
    L = M + "Log."
    more = ("bin", "+", N, const(1))
    for name in ("error", "exception", "warning", "info"):
        f = ctx.prog.func(L + name)
        for p in ctx.paths(f):
            ctx.ob()
            sets = [e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF and e[2] == "num_errors"]
            wsets = [e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF and e[2] == "num_warnings"]
            out = [c for c in p.calls if c.recv == A(SELF, "logger")]
            if not out or len([c for c in out if c.name in (name, "log") or name == "exception" and c.name == "error"]) != 1:
                ctx.bad(f, "is not logged once as such", path=p, sub=name)
            for c in out:
                kw = dict(c.kw)
                kw.update({x[1]: x[2] for x in c.args if x[0] == "kw"})
                pos = [x for x in c.args if x[0] != "kw"]
                if c.name == "log":
                    pos = pos[1:]
                if not pos or pos[0] != param(f.params[1]) or not any(x[0] == "star" and x[1] == param("args") for x in pos[1:]):
                    ctx.bad(f, "the message is not logged with its arguments", path=p, sub=name)
                if name == "exception" and c.name == "error" and kw.get("exc_info") in (None, FALSE, NONE):
                    ctx.bad(f, "the traceback is not logged", path=p, sub=name)
                ex = passed(kw.get("extra"))
                if ex is None:
                    if kw.get("extra") is None or not mentioned(kw["extra"], "loc") or not mentioned(kw["extra"], "extra_locs"):
                        ctx.bad(f, "the location is not logged", path=p, sub=name + "-loc")
                else:
                    for key in ("loc", "extra_locs"):
                        if key not in ex or not keyword_of(p, ex[key], key):
                            ctx.bad(f, "%s is not logged as such" % key, path=p, sub=name + "-loc")
            if name in ("warning", "info"):
                if sets or p.kind == "raise":
                    ctx.bad(f, "counts as an error", path=p, sub=name)
                if wsets != ([("bin", "+", W, const(1))] if name == "warning" else []):
                    ctx.bad(f, "%s is counted as a warning %d times" % (name, len(wsets)), path=p, sub=name + "-count")
                continue
            if sets != [more] or wsets:
                ctx.bad(f, "the error is not counted", path=p, sub=name)
                continue
            full, there = None, False
            for pr, pol, i in p.facts():
                if pr[0] == "lt" and MAX in pr[1:] and not there:
                    ctx.bad(f, "a log without a limit cannot take an error", path=p, sub=name + "-max")
                if pr[0] == "lt" and pr[1] == more and pr[2] == MAX:
                    full = not pol
                elif pr[0] == "lt" and pr[1] == MAX and pr[2] == more and pol:
                    full = True
                elif pr[0] == "lt" and pr[1] == N and pr[2] == MAX and not pol:
                    full = True
                elif pr[0] in ("is", "eq") and set(pr[1:]) == {MAX, NONE}:
                    full = False if pol else full
                    there = not pol
                elif pr == ("truth", MAX):
                    full = full if pol else False
                    there = pol
                elif pr[0] == "eq" and set(pr[1:]) == {MAX, more} and pol:
                    full = True
            if not is_aggregated(p, p.val):
                ctx.bad(f, "gives no exception with the numbers of errors and warnings", path=p, sub=name + "-raise")
            elif aggregated_of(p, p.val) not in (None, (more, W)):
                ctx.bad(f, "gives an exception with other numbers than those of errors and warnings", path=p, sub=name + "-raise")
            if p.kind == "raise" and full is not True:
                ctx.bad(f, "raises although there may be more errors", path=p, sub=name + "-max")
            elif p.kind != "raise" and full is not False:
                ctx.bad(f, "goes on although there may be too many errors", path=p, sub=name + "-max")
    f = ctx.prog.func(L + "throw")
    raised = 0
    for p in ctx.paths(f):
        ctx.ob()
        some = None
        for pr, pol, i in p.facts():
            if pr == ("truth", N):
                some = pol
            elif pr[0] == "lt" and pr[1] == const(0) and pr[2] == N:
                some = pol
            elif pr[0] == "eq" and set(pr[1:]) == {N, const(0)}:
                some = not pol
            elif pr[0] == "lt" and pr[1] == N and pr[2] == const(1):
                some = not pol
        if p.kind == "raise":
            raised += 1
            if some is not True or not is_aggregated(p, p.val) or aggregated_of(p, p.val) not in (None, (N, W)):
                ctx.bad(f, "raises without errors, or something else than the counted errors", path=p, sub="throw")
        elif some is not False:
            ctx.bad(f, "recorded errors are not raised", path=p, sub="throw")
    if not raised:
        ctx.bad(f, "recorded errors are never raised", sub="throw")
    f = ctx.prog.func(L + "__init__")
    for p in ctx.paths(f):
        ctx.ob()
        got = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        start = [got.get(n) or class_constant(ctx, M + "Log", n) for n in ("num_errors", "num_warnings")]
        if start != [const(0), const(0)] or got.get("logger") != param(f.params[1]) or got.get("max_errors") != param(f.params[2]):
            ctx.bad(f, "does not start without errors, with its logger and limit", path=p, sub="init")
    d = default_of(f, f.params[2])
    if not isinstance(d, ast.Constant) or d.value is not None:
        ctx.bad(f, "there is a limit for errors by default", sub="init")


def default_of(f, name):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == name:
            return d
    return None


def class_constant(ctx, cls, name):
    for s in ctx.prog.cls(cls).node.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Constant):
            return const(s.value.value)
    return None


def aggregated_of(p, v):
    """(number of errors, number of warnings) that the exception is made of; None if it is built another way."""
    for e in p.events:
        if e[0] == "new" and e[4] == v:
            kw = dict(e[3])
            a = list(e[2]) + [kw[k] for k in ("num_errors", "num_warnings")[len(e[2]):] if k in kw]
            return tuple(a) if len(a) == 2 else None
    return None


def mentioned(v, key):
    return any(t == const(key) or t[0] == "p" and t[1] == key for t in subterms(v))


def is_aggregated(p, v):
    return v is not None and (v[0] == "new" and v[1] == M + "AggregatedError" or v[0] == "call" and v[1] == ("g", M + "AggregatedError"))


@rule("located-errors", "P15 P18", floor=50)
def located_errors(ctx):
    """Every error that parser and lexer record names a location."""
    for q, f in sorted(ctx.prog.functions.items()):
        if not q.startswith((PA, LX)):
            continue
        logs = {"log"} if "log" in f.params else set()
        for c in ast.walk(f.node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("error", "exception")):
                continue
            r = c.func.value
            if not (isinstance(r, ast.Name) and r.id == "log" or isinstance(r, ast.Attribute) and r.attr == "log"):
                continue
            ctx.ob()
            kw = {k.arg: k.value for k in c.keywords}
            if None in kw:
                continue
            v = kw.get("loc")
            if v is None or isinstance(v, ast.Constant):
                ctx.bad(f, "the error %s has no location" % (ast.unparse(c.args[0])[:50] if c.args else ""), node=c, sub="loc:" + (
                    ast.unparse(c.args[0])[:40] if c.args else ""))


# what may leave a parse function: errors that were recorded, the end of the tokens, files that cannot be read
PASSED = {"StopIteration", "AggregatedError", "AslError", "SystemExit", "KeyboardInterrupt", "EOFError", "GeneratorExit"}


@rule("raised-errors", "P15 P18", floor=40)
def raised_errors(ctx):
    """What the scanner and the parser raise are recorded errors; text that cannot be decoded is one of them."""
    for q, f in sorted(ctx.prog.functions.items()):
        if not q.startswith((PA, LX)) or q.rsplit(".", 1)[-1] in ("repl", "main"):
            continue
        decoded, caught = [], False
        for p in ctx.paths(f):
            decoded += [c for c in p.calls if c.name == "parse_string"]
            caught = caught or any(e[0] == "except" and e[1].rsplit(".", 1)[-1] in ("UnicodeDecodeError", "UnicodeError", "ValueError", "Exception")
                                   for e in p.events)
            if p.kind != "raise" or p.val is None:
                continue
            ctx.ob()
            v = p.val
            if is_aggregated(p, v) or v[0] in ("p", "phi", "unk"):
                continue
            if v[0] == "exc":
                name = v[1].rsplit(".", 1)[-1]
                if name in PASSED or name in ("OSError", "IOError") and not missing_file(p):
                    continue
                ctx.bad(f, "%s is not recorded as an error" % name, path=p, sub=name)
                continue
            if v[0] == "call" and v[1][0] == "a":
                if v[1][2] in ("error", "exception", "throw"):
                    continue
                if v[1][2] in ("warning", "info"):
                    ctx.bad(f, "raises a %s: nothing is recorded as an error" % v[1][2], path=p, sub=v[1][2])
                    continue
            if v[0] == "call" and v[1][0] in ("g", "f") or v[0] == "new":
                name = (v[1][1] if v[0] == "call" else v[1]).rsplit(".", 1)[-1]
                if name in PASSED or v[0] == "call" and name + "" in ctx.prog.functions:
                    continue
                if name.endswith("Error"):
                    ctx.bad(f, "%s is not recorded as an error" % name, path=p, sub=name)
                continue
            if v[0] == "c":
                ctx.bad(f, "raises %s" % show(v), path=p, sub="value")
        if decoded:
            ctx.ob()
            if not caught:
                ctx.bad(f, "an escape sequence that cannot be decoded is not recorded as an error", sub="decode")


def missing_file(p):
    return any(pr[0] == "eq" and ("g", "errno.ENOENT") in pr[1:] and pol for pr, pol, i in p.facts())


# ------------------------------------------------------------- token streams

@rule("token-stream", "P16 P15", floor=3)
def token_stream(ctx):
    """A token stream gives the tokens of its source one after the other and remembers the last one; a string source
    gives the lines of its text under its name."""
    cls = LX + "TokenStream"
    f = ctx.prog.func(cls + ".__init__")
    S, SRC, LG, FIRST = params(f, "self", "source", "log", "firstline")
    held = None
    for p in ctx.paths(f):
        ctx.ob()
        cs = [c for c in p.calls if c.qual == LX + "tokenize"]
        if len(cs) != 1 or [cs[0].arg(i, n) for i, n in enumerate(("source", "log", "firstline"))] not in ([SRC, LG, FIRST],):
            ctx.bad(f, "another source is read than the given one", path=p, sub="source")
            continue
        for e in p.events:
            if e[0] == "setattr" and e[1] == S and strip_conv(e[3]) == cs[0].res:
                held = e[2]
    if held is None:
        ctx.bad(f, "the tokens of the source are not kept", sub="tokens")
        return
    f = ctx.prog.find_method(cls, "__next__")
    if f is None:
        ctx.bad(ctx.prog.cls(cls), "has no next token", sub="next")
        return
    toks = A(param(f.params[0]), held)
    last = None
    for p in ctx.paths(f):
        if p.kind == "raise":
            continue
        ctx.ob()
        ns = [c for c in p.calls if c.name in ("next", "__next__") and (c.args[:1] == (toks,) or c.recv == toks)]
        if len(ns) != 1 or ns[0].res != p.val:
            ctx.bad(f, "does not give the next token of the source", path=p, sub="next")
            continue
        kept = [e[2] for e in p.events if e[0] == "setattr" and e[1] == param(f.params[0]) and e[3] == p.val]
        last = kept[0] if kept else last
    f = ctx.prog.find_method(cls, "peek")
    if f is not None:
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "return" and (last is None or p.val != A(param(f.params[0]), last)):
                ctx.bad(f, "does not give the last token", path=p, sub="peek")
    cls = M + "StringSource"
    f = ctx.prog.func(cls + ".__init__")
    S, NAME, TEXT = params(f, "self", "name", "string")
    field_ = None
    for p in ctx.paths(f):
        ctx.ob()
        got = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == S}
        if got.get("name") != NAME:
            ctx.bad(f, "does not keep its name", path=p, sub="source-name")
        for k, v in got.items():
            if k != "name" and v[0] == "call" and v[1][0] in ("g", "a") and (
                    "StringIO" in show(v[1]) and v[2] == (TEXT,) or v[1][0] == "a" and v[1][1] == TEXT and v[1][2] == "splitlines"):
                field_ = k
            elif k != "name" and v == TEXT:
                field_ = k
        if field_ is None:
            ctx.bad(f, "does not keep its text", path=p, sub="source-text")
    f = ctx.prog.find_method(cls, "__iter__")
    if f is None:
        ctx.bad(ctx.prog.cls(cls), "cannot be read line by line", sub="source-lines")
    elif field_ is not None:
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "return" and p.val != NONE and not mentions(p.val, A(param(f.params[0]), field_)):
                ctx.bad(f, "does not give the lines of its text", path=p, sub="source-lines")


# ------------------------------------------------------------- command line tools

def commands(ctx):
    """(function, module) of everything that runs when a module is started as a program."""
    out = []
    for name, m in sorted(ctx.prog.modules.items()):
        short = name.rsplit(".", 1)[-1]
        if short == "__main__":
            body = [s for s in m.tree.body if not isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef))
                    and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            out.append(synthetic(m, name, body))
            continue
        for s in m.tree.body:
            if isinstance(s, ast.If) and "__name__" in ast.unparse(s.test) and "__main__" in ast.unparse(s.test):
                out.append(synthetic(m, name, s.body))
    return out


def synthetic(m, name, body):
    node = ast.FunctionDef(name="__command__", args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                           body=body or [ast.Pass()], decorator_list=[], returns=None, type_comment=None, type_params=[])
    ast.copy_location(node, body[0] if body else m.tree)
    node.lineno = getattr(node, "lineno", 1)
    node.col_offset = 0
    ast.fix_missing_locations(node)
    return Func(name + ".__command__", node, m, None)


def exit_code(p):
    """The status the path ends the process with: a constant value, None if the process goes on, '?' if unknown."""
    if p.kind != "raise" or "SystemExit" not in show(p.val):
        return None
    for c in reversed(p.calls):
        if c.name in ("exit", "_exit", "SystemExit", "quit"):
            if not c.args:
                return 0
            return c.args[0][2] if c.args[0][0] == "c" else "?"
    return "?"


def handled(p, start=0):
    return [(i, e) for i, e in enumerate(p.events) if i >= start and e[0] == "except" and e[1].rsplit(".", 1)[-1] in
            ERRORS | {"Exception", "BaseException"}]


def shown(p, i, e, to=None):
    """After the handler at i: a call that shows the error."""
    return [c for c in p.calls if c.i > i and (to is None or c.i < to) and c.name in
            ("print", "error", "exception", "write", "critical", "log", "print_exc") and any(mentions(a, e[2]) for a in c.args)]


TOOLS = {"agentspeak.runtime.main": None, "agentspeak.optimizer.main": None}


@rule("command-exit", "P26", floor=12)
def command_exit(ctx):
    """A command line tool that meets an error of the source or of the program shows it and ends with a status that is
    not zero; it never goes on as if nothing had happened."""
    fs = commands(ctx) + [ctx.prog.func(RT + "main")]
    if not any(f.module.name.endswith("__main__") for f in fs):
        ctx.bad("agentspeak.__main__", "the package cannot be started as a program", sub="main")
    for f in fs:
        for p in ctx.paths(f):
            ctx.ob()
            hs = handled(p)
            if not hs:
                if exit_code(p) not in (None, 0) and not any(c.name in ("error", "print", "write", "critical") for c in p.calls):
                    ctx.bad(f, "ends with an error without a message", path=p, sub="silent")
                continue
            i, e = hs[-1]
            if p.kind == "raise" and exit_code(p) is None:
                continue                    # goes on to the interpreter, which shows it and fails
            if exit_code(p) in (None, 0, False) or p.kind != "raise":
                ctx.bad(f, "an error (%s) ends the tool with status zero" % e[1].rsplit(".", 1)[-1], path=p, sub="status")
            if not shown(p, i, e):
                ctx.bad(f, "an error (%s) is not shown" % e[1].rsplit(".", 1)[-1], path=p, sub="message")


def argv_loops(p):
    """Loops over the command line arguments after the program name."""
    out = []
    for lid, l in loops(p).items():
        if l["src"] is not None and any(t == ("g", "sys.argv") for t in subterms(l["src"])):
            out.append((lid, l))
    return out


def argv_ok(src):
    s = strip_conv(src)
    return s == ("i", ("g", "sys.argv"), ("slice", const(1), NONE, NONE))


WORKERS = {"agentspeak.lexer.main", "agentspeak.parser.main"}


@rule("command-work", "P26 P15", floor=12)
def command_work(ctx):
    """A command line tool works on the files that it is given (the scanner and the parser on all, the interpreter on the
    first), on standard input otherwise; the parser hands over the program only after raising the recorded errors, the
    scanner raises them after the last token, the interpreter builds the agent and runs it."""
    f = ctx.prog.func(PA + "main")
    SRC, HOOK = params(f, "source", "hook")
    n = 0
    for p in ctx.paths(f):
        ctx.ob()
        if p.kind == "raise":
            continue
        ps = [c for c in p.calls if c.qual in (PA + "parse",)]
        if len(ps) != 1:
            ctx.bad(f, "the source is not parsed once", path=p, sub="parse")
            continue
        c = ps[0]
        toks = new_fields(p, c.args[1])
        log = c.args[2]
        if c.args[0] != A(SRC, "name") or not toks or toks[2][:2] != (SRC, log) or len(toks[2]) > 2 and toks[2][2] != const(1) or \
                any(k == "firstline" and v != const(1) for k, v in toks[3]):
            ctx.bad(f, "another source than the given one is parsed", path=p, sub="source")
        hooks = [k for k in p.calls if k.ev[1] == HOOK or k.name == "hook" and k.recv is None]
        if len(hooks) != 1 or hooks[0].args != (c.res,):
            ctx.bad(f, "the program is not handed over", path=p, sub="hook")
            continue
        n += 1
        if not any(k.name == "throw" and k.recv == log and c.i < k.i < hooks[0].i for k in p.calls):
            ctx.bad(f, "a program with errors is handed over", path=p, sub="errors")
    if not n:
        ctx.bad(f, "no program is ever handed over", sub="hook")
    f = ctx.prog.func(LX + "main")
    SRC, LINE = params(f, "source", "lineno")
    for p in ctx.paths(f):
        ctx.ob()
        if p.kind == "raise":
            continue
        ts = [c for c in p.calls if c.qual == LX + "tokenize"]
        if len(ts) != 1 or [ts[0].arg(0, "source"), ts[0].arg(2, "firstline")] != [SRC, LINE]:
            ctx.bad(f, "another source than the given one is scanned", path=p, sub="source")
            continue
        log = ts[0].arg(1, "log")
        last = max([l["exhausted"] or 0 for l in loops(p).values()] or [0])
        if not any(l["src"] is not None and strip_conv(l["src"]) == ts[0].res and l["exhausted"] is not None for l in loops(p).values()) and \
                not any(c.name in ("list", "tuple") and c.args == (ts[0].res,) for c in p.calls):
            ctx.bad(f, "not every token is read", path=p, sub="tokens")
        if not any(k.name == "throw" and k.recv == log and k.i > last for k in p.calls):
            ctx.bad(f, "recorded errors are not raised", path=p, sub="errors")
    for f in commands(ctx) + [ctx.prog.func(RT + "main")]:
        name = f.module.name
        if name not in ("agentspeak.lexer", "agentspeak.parser", "agentspeak.runtime"):
            if name.endswith("__main__"):
                for p in ctx.paths(f):
                    ctx.ob()
                    if p.kind == "return" and not any(c.qual == RT + "main" for c in p.calls):
                        ctx.bad(f, "the interpreter is not started", path=p, sub="start")
            continue
        if name == "agentspeak.runtime" and f.qual.endswith("__command__"):
            for p in ctx.paths(f):
                ctx.ob()
                if p.kind == "return" and not any(c.qual == RT + "main" for c in p.calls):
                    ctx.bad(f, "the interpreter is not started", path=p, sub="start")
            continue
        worked = stdin = False
        for p in ctx.paths(f):
            ctx.ob()
            opens = [c for c in p.calls if c.name == "open"]
            ls = argv_loops(p)
            for lid, l in ls:
                if not argv_ok(l["src"]):
                    ctx.bad(f, "does not take its files from the command line: %s" % show(l["src"]), path=p, sub="arguments")
                for a, b in l["iters"]:
                    mine = [c for c in opens if a < c.i < b]
                    if handled(p):
                        continue
                    if len(mine) != 1 or not (mine[0].args and mine[0].args[0][0] == "elem" and strip_conv(mine[0].args[0][1]) == strip_conv(l["src"])):
                        ctx.bad(f, "does not open the file it is given", path=p, sub="open")
                        continue
                    if not work(ctx, f, p, name, mine[0].res, a, b):
                        ctx.bad(f, "does not work on the file it is given", path=p, sub="work")
                    worked = True
            # the first file without a loop over all of them
            first = [c for c in opens if name == "agentspeak.runtime" and c.args and c.args[0][0] == "i" and c.args[0][2] == const(0) and argv_ok(c.args[0][1])]
            for c in first:
                if handled(p):
                    continue
                if len(opens) != 1 or not work(ctx, f, p, name, c.res, c.i, len(p.events)):
                    ctx.bad(f, "does not work on the file it is given", path=p, sub="work")
                worked = True
            if p.kind == "raise" or handled(p) or first:
                continue
            if not any(l["iters"] for _, l in ls):
                if any(any(t == ("g", "sys.argv") for t in subterms(pr[1])) and pol for pr, pol, i in p.facts() if pr[0] == "truth"):
                    continue      # a list that is not empty has elements
                if any(c.name == "repl" for c in p.calls):
                    continue
                if work(ctx, f, p, name, ("g", "sys.stdin"), -1, len(p.events)):
                    stdin = True
                elif not ls or not any(c.name in ("main", "build_agent") for c in p.calls):
                    ctx.bad(f, "does nothing", path=p, sub="nothing")
            for lid, l in ls:
                if name != "agentspeak.runtime" and l["broke"] is not None:
                    ctx.bad(f, "leaves out files it is given", path=p, sub="all")
        if not worked:
            ctx.bad(f, "never works on a file it is given", sub="work")
        if not stdin:
            ctx.bad(f, "never works on standard input", sub="stdin")


def work(ctx, f, p, name, src, a, b):
    entered = {src} | {e[2] for e in p.events if e[0] == "enter" and len(e) > 2 and e[1] == src and isinstance(e[2], tuple)}
    if name == "agentspeak.runtime":
        bs = [c for c in p.calls if a < c.i < b and c.name == "build_agent" and c.args and (c.args[0] in entered or mentions(c.args[0], src))]
        return len(bs) == 1 and any(c.name == "run_agent" and bs[0].res in c.args and c.i > bs[0].i and c.i < b and c.recv == bs[0].recv for c in p.calls)
    return len([c for c in p.calls if a < c.i < b and c.qual == name + ".main" and c.args and (c.args[0] in entered or mentions(c.args[0], src))]) == 1


@rule("interactive", "P26", floor=20)
def interactive(ctx):
    """At a prompt an error is shown, what was read is dropped, nothing of the failed line is left to be resumed, and the
    next line starts with no recorded error; recorded errors are raised before a line is used and before more is read
    for it."""
    for q in (LX + "repl", PA + "repl", RT + "repl"):
        f = ctx.prog.func(q)
        rounds = ctx.iterations(f, snapshots=True)
        outer = min([p.lid for p in rounds] or [0])
        its = [p for p in rounds if p.lid == outer]
        used = failed_ = 0
        names = set()
        for p in its:
            for i, e in enumerate(p.events):
                if e[0] == "iter" and e[1] == outer:
                    names |= pending(p, i)
        if not its:
            ctx.bad(f, "the session never comes to a second line", sub="rounds")
            continue
        for p in rounds:
            if p.lid != outer:
                spins(ctx, f, p, names)
        for p in its:
            ctx.ob()
            starts = [i for i, e in enumerate(p.events) if e[0] == "iter" and e[1] == outer]
            start = starts[-1] if starts else 0
            prompts = [c for c in p.calls if c.i > start and c.qual == "agentspeak.util.prompt" or c.i > start and c.name in ("input", "prompt")]
            hs = handled(p, start)
            if not prompts and not hs:
                ctx.bad(f, "a round reads no line", path=p, sub="prompt")
            if hs:
                failed_ += 1
                i, e = hs[-1]
                if not shown(p, i, e):
                    ctx.bad(f, "an error is not shown", path=p, sub="message")
                if q != LX + "repl" and not (names and dropped(p, names)):
                    ctx.bad(f, "what was read before an error stays and is read again", path=p, sub="tokens")
                runs = [c for c in p.calls if start < c.i < i and c.name == "run_agent"]
                if runs and raised_by(p, runs[-1]) and not left_out(p, runs[-1].i, i):
                    ctx.bad(f, "a failed line is resumed with the next one", path=p, sub="resume")
                continue
            uses = [c for c in p.calls if c.i > start and (c.ev[1] == param(f.params[0]) if q == PA + "repl" and f.params else False) or c.i > start and (
                c.name in ("run_agent",) or c.qual == LX + "main")]
            ps = [c for c in p.calls if c.i > start and c.qual in (PA + "parse_agent", PA + "parse_plan_body", PA + "parse")]
            scans = [c for c in p.calls if c.i > start and c.qual in (LX + "tokenize", LX + "main")]
            if len(scans) != 1 and (scans or not any(mentions(pr, k.res) for pr, pol, i in p.facts() for k in prompts)):
                ctx.bad(f, "a line is scanned %d times" % len(scans), path=p, sub="scan")
            for c in scans:
                src = new_fields(p, c.arg(0, "source"))
                text = (list(src[2]) + [v for k, v in src[3] if k == "string"])[1:2] if src else [c.arg(0, "source")]
                line = c.arg(2, "firstline") if c.qual == LX + "tokenize" else c.arg(1, "lineno")
                if not any(mentions(x, k.res) for x in text for k in prompts):
                    ctx.bad(f, "another text is scanned than the line that was typed", path=p, sub="line")
                if line is None or not counted(p, line, outer):
                    ctx.bad(f, "the lines that are typed are not counted from one: %s" % show(line or NONE)[:60], path=p, sub="lineno")
            logs = {c.arg(1, "log") for c in p.calls if c.i > start and c.qual == LX + "tokenize"}
            for lg in logs:
                if lg[0] != "new" or not any(e[0] == "new" and e[4] == lg for e in p.events[start:]):
                    ctx.bad(f, "errors of earlier lines are still recorded", path=p, sub="log")
            for c in ps:
                lg = c.args[2] if len(c.args) > 2 else None
                held = {v for e in p.events[:c.i] if e[0] == "iter" for n, v in (e[2] or ()) if n in names} | {
                    v for (fr, n), v in p.path.env.items() if n in names} | {("phi", l, n) for n in names for l in {e[1] for e in p.events if e[0] == "iter"}}
                if names and not any(mentions(c.arg(1, "tokens"), v) for v in held):
                    ctx.bad(f, "something else is parsed than what was scanned", path=p, sub="parse")
                if lg not in logs:
                    ctx.bad(f, "parses with another log than it scans with", path=p, sub="log")
            throws = [c.i for c in p.calls if c.i > start and c.name == "throw" and c.recv in logs]
            for u in uses:
                used += 1
                before = [c for c in ps if c.i < u.i]
                if u.qual == LX + "main":
                    continue
                if q == PA + "repl" and (not before or u.args != (before[-1].res,)):
                    ctx.bad(f, "another program is used than the one that was read", path=p, sub="hook")
                if q == RT + "repl":
                    prepared(ctx, f, p, before[-1] if before else None, u)
                scanned = max([c.i for c in scans if c.i < u.i] or [0])
                for pr, pol, i in p.facts():
                    if scanned < i < u.i and pr[0] == "truth" and not pol and any(mentions(pr[1], c.arg(1, "tokens")) or mentions(
                            c.arg(1, "tokens"), pr[1]) for c in before):
                        ctx.bad(f, "a line is only used if it is empty", path=p, sub="empty")
                if not before or not any(before[-1].i < t < u.i for t in throws):
                    ctx.bad(f, "a line with errors is used", path=p, sub="errors")
            stops = [i for i, e in enumerate(p.events) if i > start and e[0] == "except" and e[1].rsplit(".", 1)[-1] == "StopIteration"]
            for s in stops:
                if not any(t > s for t in throws):
                    ctx.bad(f, "a line is continued although it has errors", path=p, sub="errors")
            if stops and names and dropped(p, names):
                ctx.bad(f, "the beginning of what is continued on the next line is lost", path=p, sub="continued")
            if q == RT + "repl":
                vs = [c for c in p.calls if c.i > start and c.name == "accept"]
                for v in vs:
                    u = [c for c in uses if c.i > v.i]
                    if u and not any(v.i < t < u[0].i for t in throws):
                        ctx.bad(f, "a line that cannot be compiled is used", path=p, sub="errors")
        if not failed_:
            ctx.bad(f, "an error ends the session", sub="error")
        if not used:
            ctx.bad(f, "no line is ever used", sub="used")
        for p in ctx.paths(f):
            ctx.ob()
            if p.kind == "return" and not [c for c in p.calls if c.name == "prompt"]:
                ctx.bad(f, "the session ends at once", path=p, sub="ends")
            for e in p.events:
                if e[0] == "except" and p.kind == "raise" and p.val == e[2] and e[1].rsplit(".", 1)[-1] in ERRORS | {"StopIteration"}:
                    ctx.bad(f, "%s ends the session" % e[1].rsplit(".", 1)[-1], path=p, sub="ends")


def prepared(ctx, f, p, parsed, run):
    """The line that is run is the one that was parsed: compiled into the intention that the agent is given."""
    if parsed is None:
        return
    body = ("i", parsed.res, const(1))
    made = [c for c in p.calls if parsed.i < c.i < run.i and c.name == "accept" and c.recv == body]
    if len(made) != 1:
        ctx.bad(f, "what was read is compiled %d times" % len(made), path=p, sub="compile")
        return
    v = new_fields(p, made[0].args[0])
    first = v[2][2] if v and len(v[2]) > 2 else None
    starts = [(e[1], e[3]) for i, e in enumerate(p.events) if parsed.i < i < run.i and e[0] == "setattr" and e[2] == "instr"]
    mine = [o for o, x in starts if first is None or x == first or first == A(o, "instr")]
    if not mine:
        ctx.bad(f, "nothing starts with what was compiled", path=p, sub="compile")
        return
    given = [c for c in p.calls if parsed.i < c.i < run.i and c.recv is not None and c.recv[0] == "a" and c.recv[2] == "intentions" and
             c.name in ("append", "appendleft", "insert") and c.args]
    if not any(mentions(c.args[-1], o) or any(k.recv == c.args[-1] and k.args == (o,) for k in p.calls) or any(
            e[0] == "new" and e[4] == c.args[-1] and any(mentions(x, o) for x in e[2]) for e in p.events) for c in given for o in mine):
        ctx.bad(f, "the agent is not given what was compiled", path=p, sub="compile")


def counted(p, line, outer):
    """The number of the line is one in the first round and one more in every other."""
    base, up = line, 0
    while base[0] == "bin" and base[1] == "+" and base[3][0] == "c" and isinstance(base[3][2], int):
        base, up = base[2], up + base[3][2]
    if base[0] == "c":
        first, name = base[2] + up, None
        # the first round: the variable that holds the number is the one whose value follows
        return first == 1 and any(v == ("bin", "+", base, const(1)) for v in p.path.env.values())
    if base[0] == "phi" and base[1] == outer:
        end = [v for (fr, n), v in p.path.env.items() if n == base[2]]
        return end in ([("bin", "+", base, const(1))],)
    return True


def spins(ctx, f, p, names):
    """A round of the loop over the tokens that are left: it uses up tokens."""
    ctx.ob()
    start = max([i for i, e in enumerate(p.events) if e[0] == "iter" and e[1] == p.lid] or [0])
    stop = [e for i, e in enumerate(p.events) if i > start and e[0] == "except"]
    ps = [c for c in p.calls if c.i > start and c.qual in (PA + "parse_agent", PA + "parse_plan_body", PA + "parse")]
    if stop:
        ctx.bad(f, "goes on with the same tokens for ever", path=p, sub="spins")
        return
    end = {n: v for (fr, n), v in p.path.env.items() if n in names}
    for c in ps:
        stream = c.arg(1, "tokens")
        held = stream
        while held is not None and held[0] == "conv":
            held = held[2]
        if end and stream[0] == "conv" and not any(mentions(v, stream) for v in end.values()) and \
                not any(k.i > c.i and k.recv == held for k in p.calls):
            ctx.bad(f, "what was read stays among the tokens that are left", path=p, sub="spins")


def pending(p, start):
    """Names that hold the tokens that are read but not used: those extended by what is scanned in this round."""
    out = set()
    head = dict(p.events[start][2] or ())
    for c in p.calls:
        if c.i > start and c.name in ("extend", "append") and c.recv is not None:
            out |= {n for n, v in head.items() if v == c.recv}
    for i, e in enumerate(p.events):
        if i > start and e[0] == "aug" and any(is_call(t, "tokenize") for t in subterms(e[3])):
            out |= {n for n, v in head.items() if v == e[1]}
    return out


def dropped(p, names):
    """At the end of the round the pending tokens are an empty list."""
    for (fr, n), v in p.path.env.items():
        if n not in names:
            continue
        if v in (("tuple", ()), ("conv", "list", ("tuple", ()))):
            continue
        last = [c.i for c in p.calls if c.recv == v and c.name in ("append", "extend", "clear")]
        cleared = [c.i for c in p.calls if c.recv == v and c.name == "clear"]
        if cleared and cleared[-1] == last[-1]:
            continue
        made = [i for i, e in enumerate(p.events) if e[0] == "except"]
        if v[0] == "new" and not last and made and fresh_after(p, v, made[-1]):
            continue
        return False
    return True


def fresh_after(p, v, i):
    return max([x[-1] for e in p.events[:i] for x in e if isinstance(x, tuple) and x and isinstance(x[-1], int) and x[0] in ("new", "call", "exc")] or [0]) < v[-1]


def raised_by(p, c):
    """The first exception after the call c is one of that call."""
    for e in p.events[c.i + 1:]:
        if e[0] == "except":
            return True
        if e[0] == "call":
            return False
    return False


def left_out(p, run, upto):
    """Between a failed run and the end of the round the stacks that hold the prompt's intention are removed."""
    for lid, l in loops(p).items():
        if l["start"] <= run or l["src"] is None or "intentions" not in show(l["src"]):
            continue
        for a, b in l["iters"]:
            removed = any(a < c.i < b and c.name in REMOVERS and c.recv is not None and "intentions" in show(c.recv) for c in p.calls)
            asked = [pol for pr, pol, i in p.facts() if a < i < b and pr[0] in ("in", "is", "eq")]
            if asked and removed is not any(asked) or not asked and not removed:
                return False
        return True
    for c in p.calls:
        if c.i > run and c.name in REMOVERS and c.recv is not None and "intentions" in show(c.recv):
            return True
    return any(e[0] == "setattr" and e[2] == "intentions" for e in p.events[run:])


REMOVERS = ("remove", "clear", "popleft", "pop")


def message_location(p):
    """The terms that stand for the location given with the record."""
    rec = param("record")
    out = [("a", rec, "loc")]
    for c in p.calls:
        if c.name in ("get", "getattr", "pop") and any(a == const("loc") for a in c.args):
            out.append(c.res)
    for pred, pol, i in p.facts():
        if pred[0] in ("truth", "is"):
            out += [v for v in pred[1:] if isinstance(v, tuple) and v[0] == "i" and v[2] == const("loc")]
    return out


def within(p, base, key):
    """The path knows that base has an element at key."""
    if any(pred[0] == "lt" and pred[1] == key and pol and any(t[0] == "len" for t in subterms(pred[2])) for pred, pol, i in p.facts()):
        return True
    if any(e[0] == "except" and e[1].rsplit(".", 1)[-1] in ("IndexError", "LookupError", "Exception") for e in p.events):
        return True
    if key[0] == "elem" and key[1][0] == "call" and key[1][1] == ("g", "builtins.range"):
        return any(t[0] == "len" for t in subterms(key[1]))
    return True


@rule("message-text", "P15 P23", floor=100)
def message_text(ctx):
    """A reported problem is shown: every path through the formatter includes the message, names file, line and column
    (counted from one) if the location is known, and cannot fail while marking the place in the line."""
    f = ctx.prog.func("agentspeak.LogFormatter.formatMessage")
    for p in ctx.paths(f):
        ctx.ob()
        if p.kind != "return":
            ctx.bad(f, "fails to format a message", path=p, sub="raise")
            continue
        pieces = [p.val] + [a for c in p.calls if c.name in ("append", "extend", "insert", "write") for a in c.args]
        pieces += [e[3] for i, e in p.find("setitem")]
        text = [t for v in pieces for t in subterms(v)]
        if not any(t[0] == "call" and t[1][0] == "a" and t[1][2] in ("formatMessage", "getMessage", "format") or
                   t == ("a", param("record"), "message") for t in text):
            ctx.bad(f, "leaves out the message", path=p, sub="message")
        locs = [v for v in message_location(p) if p.fact(("truth", v)) or p.fact(("is", NONE, v)) is False]
        denied = {pred[1] for pred, pol, i in p.facts() if pred[0] == "truth" and not pol} | \
            {x for pred, pol, i in p.facts() if pred[0] == "is" and pol and NONE in pred[1:] for x in pred[1:]}
        locs = [v for v in locs if v not in denied]
        if locs:
            loc = locs[0]
            if ("a", loc, "filename") not in text or ("a", loc, "lineno") not in text:
                ctx.bad(f, "does not name file and line of the problem", path=p, sub="place")
            cols = [v for v in pieces if ("a", loc, "startcol") in list(subterms(v)) and ("a", loc, "lineno") in list(subterms(v))]
            if not any(t[0] == "bin" and t[1] == "+" and ("a", loc, "startcol") in t[2:] and const(1) in t[2:] for v in cols for t in subterms(v)):
                ctx.bad(f, "does not name the column of the problem, counted from one", path=p, sub="column")
        for i, e in p.find("setitem"):
            if e[1][0] == "new" and not within(p, e[1], e[2]):
                ctx.bad(f, "marks a column that may be outside of the line: the message would be lost", path=p, sub="mark")


@rule("token-end", "P26 P15", floor=8)
def token_end(ctx):
    """A parser called at a prompt is given tokens that may end in the middle of a statement: that they ended reaches the
    prompt, which reads on, and nothing asks them for more than the next token."""
    start = ctx.prog.func(PA + "parse_agent")
    todo, seen = [(start, start.params[1]), (ctx.prog.func(PA + "parse_plan_body"), ctx.prog.func(PA + "parse_plan_body").params[1])], set()
    while todo:
        f, name = todo.pop()
        if (f.qual, name) in seen:
            continue
        seen.add((f.qual, name))
        ctx.ob()
        is_it = lambda x: isinstance(x, ast.Name) and x.id == name
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and is_it(n.value) and n.attr != "__next__":
                ctx.bad(f, "asks the tokens of a prompt for %s" % n.attr, n, sub="member")
            if isinstance(n, ast.Try):
                names = [ast.unparse(h.type) if h.type is not None else "BaseException" for h in n.handlers]
                passed = [c for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call) and not (isinstance(c.func, ast.Name) and c.func.id == "next")
                          and any(is_it(a) for a in c.args + [k.value for k in c.keywords])]
                for h, t in zip(n.handlers, names):
                    if any(w in t for w in ("StopIteration", "BaseException")) or t == "Exception":
                        again = any(isinstance(x, ast.Raise) and (x.exc is None or "StopIteration" in ast.unparse(x.exc)) for x in ast.walk(h))
                        if passed and not again:
                            ctx.bad(f, "the end of the tokens in the middle of a statement does not reach the prompt", h, sub="end")
            if isinstance(n, ast.Call):
                q = ctx.prog.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
                g = ctx.prog.functions.get(q)
                if g is None:
                    continue
                for i, a in enumerate(n.args):
                    if is_it(a) and i < len(g.params):
                        todo.append((g, g.params[i]))
                for k in n.keywords:
                    if is_it(k.value) and k.arg in g.params:
                        todo.append((g, k.arg))


@rule("closed-files", "P15 P26", floor=2)
def closed_files(ctx):
    """What reads from a file is used before the file is closed: tokens and lines are read only on demand."""
    import ast
    for f in ctx.prog.all_functions:
        if f.parent is not None or f.module.name == "agentspeak.optimizer":
            continue
        if not any(isinstance(n, ast.Name) and n.id == "open" or isinstance(n, ast.Attribute) and n.attr == "open" for n in ast.walk(f.node)):
            continue
        for p in list(ctx.paths(f)) + list(ctx.iterations(f)):
            files = [c.res for c in p.calls if c.name == "open"]
            if not files:
                continue
            ctx.ob()
            lives = {x: {x} for x in files}
            managed, dead = {}, set()
            for i, e in enumerate(p.events):
                if e[0] == "enter" and e[1] in lives:
                    managed[e[2]] = e[1]
                elif e[0] == "exit" and e[-1] in managed:
                    dead |= lives[managed[e[-1]]]
                elif e[0] in ("call", "new"):
                    args = e[2] if e[0] in ("call", "new") and isinstance(e[2], tuple) else ()
                    vals = {a[2] if a and a[0] == "kw" else a for a in args if isinstance(a, tuple)}
                    if e[0] == "call" and e[1][0] == "a":
                        vals.add(e[1][1])
                        if e[1][2] == "close" and e[1][1] in lives:
                            dead |= lives[e[1][1]]
                            continue
                    if vals & dead and not (e[0] == "call" and e[1][0] == "a" and e[1][2] in ("close", "append")):
                        ctx.bad(f, "reads from a file that has been closed", e[3] if isinstance(e[3], ast.AST) else None, p, "closed")
                        break
                    for x, derived in lives.items():
                        if vals & derived and len(e) > 4 and isinstance(e[4], tuple) and (e[0] == "new" or lazy(ctx, e[1])):
                            derived.add(e[4])
            if p.kind == "return" and p.val in dead:
                ctx.bad(f, "gives away what reads from a file that has been closed", path=p, sub="closed")


def lazy(ctx, fv):
    """Does the call give something that reads its arguments only later?"""
    import ast
    if fv[0] != "g":
        return False
    if fv[1] in ("builtins.iter", "builtins.enumerate", "builtins.map", "builtins.filter", "builtins.zip"):
        return True
    f = ctx.prog.functions.get(fv[1])
    return f is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
