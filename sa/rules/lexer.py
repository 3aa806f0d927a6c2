"""Every character of a source belongs to a token, white space or a comment, or is reported."""
import ast

from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .. import rx
from ..tokens import fold, NotConst, truth
from .terms import M, need_method
from .grammar import lang, EVERYTHING

LX = M + "lexer."

# ------------------------------------------------------------- the reference

REF = [
    ("space", r"\s+"), ("comment", r"(//|#).*"),
    ("functor", r"~?(?!(true|false|not|div|mod|if|else|while|for|include|begin|end)($|[^a-zA-Z0-9_]))(\.?[a-z][a-zA-Z0-9_]*)+"),
    ("numeric", r"(\d*\.\d+|\d+)([eE][+-]?\d+)?"), ("variable", r"_*[A-Z][a-zA-Z0-9_]*|_+"), ("string", r'"([^\\"]|\\.)*"'),
]
WORDS = {k: r for k, r in REF}
FIRST = ["<-", ":-", "|&|", "|||", "!!", "-+", "**", "<=", ">=", "\\==", "==", "=.."]
START, END = r"/\*", r".*?\*/"


def escape(s):
    return "".join(c if c.isalnum() else "\\" + c for c in s)


def reference():
    """Ordered (kind, regular expression): longer operators before their prefixes."""
    out = list(REF)
    for k in FIRST + sorted(k for k in EVERYTHING if k not in FIRST and k not in WORDS):
        out.append((k, escape(k)))
    return out


@rule("token-table", "P16", floor=50)
def token_table_(ctx):
    """Every kind of token matches exactly the texts that it should, never the empty text, and where two kinds match
    at the same place the one that should win is tried first: names before keywords, longer operators before their
    prefixes.  No other kind takes texts away from these."""
    L = lang(ctx)
    f = ctx.prog.cls(LX + "TokenType")
    where = LX + "TokenType"
    by = {}
    for t in L.table:
        by.setdefault(t.kind, []).append(t)
    ref = reference()
    order = {k: i for i, (k, _) in enumerate(ref)}
    try:
        for k, r in ref:
            ctx.ob()
            if k not in by:
                ctx.bad(where, "no token stands for %s" % (k if k in WORDS else "'%s'" % k), sub=k)
                continue
            t = by[k][0]
            d = rx.differ(t.regex, r)
            if d is not None:
                ctx.bad(where, "the text %r is not split as it should be: %s tokens are not what they were meant to be" % (d, k), node=t.node, sub=k)
        for t in L.table:
            if rx.matched(t.regex, "") is not None:
                ctx.bad(where, "%s matches the empty text" % t.name, node=t.node, sub=t.name)
            if truth(t.attrs.get("space")) and t.kind != "space" or truth(t.attrs.get("comment")) and t.kind != "comment":
                ctx.bad(where, "%s is dropped" % t.name, node=t.node, sub=t.name)
        n = 0
        for a in L.table:
            for b in L.table:
                if a.order >= b.order or a.kind == b.kind:
                    continue
                if a.kind in order and b.kind in order and order[a.kind] < order[b.kind]:
                    continue
                n += 1
                if b.kind not in order or not rx.conflict(a.regex, b.regex):
                    continue
                ctx.bad(where, "%s is tried before %s and takes its text" % (a.name, b.name), node=a.node, sub="%s-%s" % (a.name, b.name))
        ctx.ob(n, "order of tokens")
    except rx.Unsupported as e:
        raise AnalysisBroken("regular expression: %s" % e)


def pattern(ctx, v):
    """The regular expression of a constant made by re.compile, as written."""
    if v[0] == "g":
        m, _, name = v[1].rpartition(".")
        if m in ctx.prog.modules:
            for n in ctx.prog.modules[m].tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    c = n.value
                    if isinstance(c, ast.Call) and ctx.prog.resolve_expr(ctx.prog.modules[m], c.func) == "re.compile":
                        if len(c.args) != 1 or c.keywords:
                            raise AnalysisBroken("flags of a regular expression")
                        try:
                            return fold(ctx.prog, ctx.prog.modules[m], c.args[0])
                        except NotConst:
                            pass
    return None


class Scan(object):
    """What the scanner does on one path: matches at positions, in order."""

    def __init__(self, ctx, p, kinds):
        self.ctx, self.p, self.kinds = ctx, p, kinds
        self.matches = []          # (index, kind, line, position, result, outcome, element)
        for c in p.calls:
            if c.name not in ("match", "search"):
                continue
            recv = c.recv or G(c.qual.rpartition(".")[0])
            el = [t for t in subterms(recv) if t and t[0] == "elem" and G(LX + "TokenType") in subterms(t[1])]
            kind = "token" if el else kinds(recv, c.name)
            out = p.fact(("truth", c.res))
            if out is None:
                for pr, pol, i in p.facts():
                    if pr[0] in ("is", "eq") and c.res in pr[1:] and NONE in pr[1:]:
                        out = not pol
            self.matches.append((c.i, kind, c.args[0] if c.args else None, c.args[1] if len(c.args) > 1 else const(0), c.res, out,
                                 el[0] if el else None))

    def end_of(self, v):
        """The match whose end is v."""
        if v[0] == "call" and v[1][0] == "a" and v[1][2] == "end" and v[2] in ((), (const(0),)):
            return v[1][1]
        return None


@rule("scanner", "P16", floor=40)
def scanner(ctx):
    """The scanner goes through every line from its first to its last character: inside a block comment it looks for
    its end only; outside, at each position, it tries the start of a comment and then the kinds of tokens in order.  It
    goes on at the end of what matched, or reports the character and goes on behind it.  Each match other than space
    and comments yields one token with its text, kind and place.  A comment open at the end of the source is reported."""
    f = ctx.prog.func(LX + "tokenize")
    SRC, LOG, FIRSTLINE = [param(x) for x in f.params[:3]]
    cache = {}

    def kinds(recv, name):
        if (recv, name) not in cache:
            r = pattern(ctx, recv)
            try:
                cache[recv, name] = "other" if r is None else "start" if name == "match" and rx.differ(r, START) is None else \
                    "end" if rx.differ(r if name == "match" else ".*?(%s)" % r, END) is None else "other"
            except rx.Unsupported as e:
                raise AnalysisBroken("regular expression: %s" % e)
        return cache[recv, name]

    paths = ctx.iterations(f, snapshots=True) + ctx.paths(f, snapshots=True)
    back = [p for p in paths if p.kind == "back"]
    if not any(s[1] == "token" for p in paths for s in Scan(ctx, p, kinds).matches):
        ctx.bad(f, "the scanner never matches the kinds of tokens", sub="match")
        return
    bad = lambda p, msg, sub: ctx.bad(f, msg, path=p, sub=sub)
    line_of = lambda t: t is not None and (is_line(t, SRC) or t[0] == "call" and t[1][0] == "a" and t[1][2] in ("replace", "expandtabs") and is_line(t[1][1], SRC)
                                          and (t[1][2] == "expandtabs" or len(t[2]) == 2 and t[2][0] == const("\t") and blank(t[2][1])))
    state = Mode(back, paths)
    for p in paths:
        sc = Scan(ctx, p, kinds)
        ctx.ob()
        errs = [c for c in p.calls_to("error", "exception") if c.recv == LOG]
        its = [(i, e[1], e[2]) for i, e in enumerate(p.events) if e[0] == "iter"]
        ends = {e[1]: e[2] for e in p.events if e[0] == "endloop"}
        lens = {t for e in p.events if e[0] == "fact" for t in subterms(e[1]) if t and t[0] == "len"}
        for m in sc.matches:
            if not line_of(m[2]):
                bad(p, "what is scanned is not the line of the source", "line")
            if m[6] is not None and m[6][1] != G(LX + "TokenType") and m[6][1] != G(LX + "TokenType.__members__"):
                bad(p, "not all kinds of tokens are tried in their order", "order")
            if m[1] == "other":
                bad(p, "an unknown pattern is matched: comments do not begin and end as they should", "comment")
        # iterations over positions
        wh = [(k, lid, snap) for k, lid, snap in its if snap is not None and lid in ctx_whiles(p)]
        for n_, (k, lid, snap) in enumerate(wh):
            stop = next((i for i, e in enumerate(p.events) if i > k and e[0] in ("enditer", "endloop") and e[1] == lid), len(p.events))
            ms = [m for m in sc.matches if k < m[0] < stop]
            left = any(e[0] == "endloop" and e[1] == lid and e[2] == "break" for e in p.events[stop:stop + 1])
            es = [c for c in errs if k < c.i < stop]
            ys = [(i, v) for i, v, _ in p.yields() if k < i < stop]
            pos = position(dict(snap), ms, lid)
            if not ms:
                bad(p, "a position of the source is passed over", "position")
                continue
            if pos is None or any(m[3] != pos for m in ms):
                bad(p, "the source is not matched at the place that was reached", "position")
                continue
            order = [m[1] for m in ms]
            hit = [m for m in ms if m[5]]
            env = {k_[1]: v for k_, v in p.path.env.items()} if p.kind == "back" and stop >= len(p.events) - 1 else None
            mode = state.truth(dict(snap), p)
            if any(m[5] is None for m in ms):
                bad(p, "a match is not looked at", "match")
            if mode is None:
                bad(p, "the scanner does not know whether it is in a comment", "comment")
                continue
            if mode and order != ["end"]:
                bad(p, "in a comment something other than its end is looked for", "comment")
                continue
            if not mode and (order[0] != "start" or set(order[1:]) - {"token"}):
                bad(p, "outside of comments the start of a comment and then tokens are to be looked for", "comment")
                continue
            if len(hit) > 1:
                bad(p, "two matches at one place", "match")
                continue
            # what comes next
            nxt = env.get(state.pos(p, lid)) if env is not None and state.pos(p, lid) else None
            tested = {a for a in (below(pr, lens) for pr, pol, i in p.facts() if i >= stop) if a is not None}
            if env is not None and nxt is not None:
                tested = {nxt} | tested
            if hit:
                m = hit[0]
                if left:
                    bad(p, "the rest of the line is lost", "rest")
                for t in tested:
                    if sc.end_of(t) != m[4]:
                        bad(p, "the scanner does not go on at the end of what matched", "advance")
                if not tested:
                    bad(p, "the scanner does not go on at the end of what matched", "advance")
                if m[1] == "token" and ms[-1] is not m:
                    bad(p, "two matches at one place", "match")
                if m[1] != "token" and ys:
                    bad(p, "a comment becomes a token", "yield")
                if es:
                    bad(p, "a legal text is reported", "error")
            elif mode:
                if es or ys:
                    bad(p, "a comment is reported or becomes a token", "error")
                if not left and not all(t[0] == "len" for t in tested):
                    bad(p, "a comment without end in the line does not take the rest of it", "advance")
            else:
                # nothing matches
                if ys:
                    bad(p, "a token without a match", "yield")
                if left:
                    bad(p, "the rest of the line is lost", "rest")
                if len(ms) > 1 and any(e[0] == "endloop" and e[2] == "break" and k < i < stop for i, e in enumerate(p.events)):
                    bad(p, "not all kinds of tokens are tried", "match")
                ok = [c for c in es if any(a == ("i", m[2], pos) for a in c.args for m in ms)]
                if len(es) != 1 or len(ok) != 1:
                    bad(p, "an illegal character is not reported", "error")
                else:
                    loc = ok[0].kw.get("loc")
                    if not place(ctx, loc, SRC, FIRSTLINE, pos, (pos, plus(pos)), ms[0][2]):
                        bad(p, "an illegal character is reported at another place", "loc")
                for t in tested:
                    if t not in plus(pos):
                        bad(p, "the scanner does not go on behind an illegal character", "advance")
                if not tested:
                    bad(p, "the scanner does not go on behind an illegal character", "advance")
            if hit and hit[0][1] == "token":
                m = hit[0]
                flags = {pr[1][2]: pol for pr, pol, i in p.facts() if pr[0] == "truth" and pr[1][0] == "a" and m[6] in subterms(pr[1])}
                drop = flags.get("space") or flags.get("comment")
                if drop and ys or not drop and len(ys) != 1:
                    bad(p, "space and comments are no tokens, everything else is one", "yield")
                if ys and not (flags.get("space") is False and flags.get("comment") is False):
                    bad(p, "space and comments are no tokens, everything else is one", "yield")
                for i, v in ys:
                    info = tupled(ctx, LX + "TokenInfo", v)
                    if info is None:
                        bad(p, "what is yielded is no token", "token")
                        continue
                    lex = info.get("lexeme")
                    if lex not in (("call", A(m[4], "group"), (const(0),), lex[-1]), ("call", A(m[4], "group"), (), lex[-1])) and \
                            lex != ("i", m[2], ("slice", pos, info_end(sc, info), NONE)):
                        bad(p, "the text of a token is not what matched", "lexeme")
                    if not (info.get("token") == m[6] or info.get("token") == A(m[6], "value")):
                        bad(p, "a token has another kind than the one that matched", "kind")
                    if not place(ctx, info.get("loc"), SRC, FIRSTLINE, pos, None, m[2], lambda t: sc.end_of(t) == m[4]):
                        bad(p, "a token does not stand where its location says", "loc")
            # the state of the next iteration
            if env is not None:
                after = state.truth(env, p)
                want = hit[0][1] == "start" if hit else mode
                if after is not None and after != want or after is None and True:
                    bad(p, "the scanner does not remember whether it is in a comment", "comment")
        if p.kind == "return":
            out = {lid for lid in [x for i, x, _ in its] if lid not in ctx_whiles(p)}
            end = [c for c in errs if not p.iter_of(c.i) or c.i > last_loop(p)]
            after = state.truth({k_[1]: v for k_, v in p.path.env.items()}, p)
            if after is None:
                if its:
                    bad(p, "it is not known at the end whether a comment is open", "eof")
            elif bool(end) != bool(after):
                bad(p, "a comment that is not closed is reported at the end of the source, nothing else", "eof")
            for c in end:
                if after and not place(ctx, c.kw.get("loc"), SRC, FIRSTLINE, None, None, None, lambda t: True):
                    bad(p, "an open comment is reported at another place", "loc")
            # every line is scanned to its end
            lines = [x for i, x, e in its if x not in ctx_whiles(p)]
            if lines and not any(e[0] == "loop" and e[1] in ctx_whiles(p) for e in p.events):
                bad(p, "a line is passed over", "line")
            for lid in ctx_whiles(p):
                if ends.get(lid) == "exhausted":
                    if not any(below(pr, lens) is not None and not pol or pr[0] == "truth" and pr[1][0] == "len" and not pol for pr, pol, i in p.facts()):
                        bad(p, "a line is not scanned to its end", "rest")
    # the first position of each line is its first character
    fl = paths[0].flow
    for lid, l in fl.loops.items():
        if l.get("iter") is None and l["node"].__class__ is ast.While:
            names = {state.pos(p, lid) for p in back} - {None}
            for n_ in names:
                init = [v for k, v in l["init"].items() if k[1] == n_]
                if init and init[0] != const(0):
                    ctx.bad(f, "a line is not scanned from its first character", node=l["node"], sub="line")
        elif l.get("iter") is not None and SRC in subterms(l["iter"]):
            init = [v for k, v in l["init"].items() if k[1] == state.name]
            if init and not (init[0][0] == "c" and not init[0][2]):
                ctx.bad(f, "a source begins within a comment", node=l["node"], sub="comment")
    if default(f, 2) != 1:
        ctx.bad(f, "the first line is not line 1", sub="firstline")
    src = [e[2] for p in paths for e in p.events if e[0] == "loop" and e[2] is not None]
    if not any(SRC in subterms(s) for s in src):
        ctx.bad(f, "the lines of the source are not scanned", sub="line")


def default(f, k):
    a = f.node.args
    n = len(a.args) - len(a.defaults)
    names = [x.arg for x in a.args]
    d = a.defaults[k - n] if n <= k < len(names) else None
    return d.value if isinstance(d, ast.Constant) else None


def is_line(t, src):
    return t is not None and t[0] == "elem" and src in subterms(t)


def blank(v):
    return v[0] == "c" and v[1] == "str" and not v[2].strip(" ")


def plus(pos):
    return {("bin", "+", pos, const(1)), ("bin", "+", const(1), pos)} | ({const(pos[2] + 1)} if pos[0] == "c" else set())


def below(pr, lens):
    """pos < len(line): the position that is compared."""
    if pr[0] == "lt" and pr[2] in lens:
        return pr[1]
    if pr[0] in ("eq", "is") and any(x in lens for x in pr[1:]):
        return [x for x in pr[1:] if x not in lens][0] if any(x not in lens for x in pr[1:]) else None
    return None


def ctx_whiles(p):
    return {e[1] for e in p.events if e[0] == "loop" and isinstance(e[-1], ast.While)}


def last_loop(p):
    return max([i for i, e in enumerate(p.events) if e[0] == "endloop"] or [-1])


def position(snap, ms, lid):
    """The position the iteration starts at: the variable that is handed to the matches."""
    for m in ms[:1]:
        if m[3] == const(0) or m[3][0] == "phi" and m[3][1] == lid:
            return m[3]
        if m[3] in snap.values():
            return m[3]
    return None


class Mode(object):
    """The variable that says whether a comment is open."""

    def __init__(self, back, paths):
        self.name = None
        self.positions = {}
        names = None
        for p in back:
            vals = {k[1]: v for k, v in p.path.env.items()}
            consts = {n_ for n_, v in vals.items() if v in (TRUE, FALSE, NONE) or v[0] in ("new", "call", "phi")}
            names = consts if names is None else names & consts
        best = {}
        for n_ in names or ():
            vals = {v for p in back for k, v in p.path.env.items() if k[1] == n_}
            if len(vals) > 1 and vals & {FALSE, NONE}:
                best[n_] = vals
        self.name = sorted(best)[0] if best else None

    def truth(self, env, p):
        if self.name is None or self.name not in env:
            return None
        v = env[self.name]
        if v[0] == "c":
            return bool(v[2])
        r = p.fact(("truth", v))
        if r is None:
            for pr, pol, i in p.facts():
                if pr[0] in ("is", "eq") and v in pr[1:] and NONE in pr[1:]:
                    r = not pol
        if r is None and v[0] in ("new", "call"):
            return True
        return r

    def pos(self, p, lid):
        """Name of the variable that holds the position."""
        for i, e in enumerate(p.events):
            if e[0] == "iter" and e[1] == lid and lid in ctx_whiles(p):
                nxt = next((c for c in p.calls_to("match", "search") if c.i > i and len(c.args) > 1), None)
                if nxt is not None:
                    if nxt.args[1][0] == "phi":
                        return nxt.args[1][2]
                    ns = [n_ for n_, v in e[2] if v == nxt.args[1]]
                    if len(ns) == 1:
                        return ns[0]
        return None


def tupled(ctx, qual, v):
    """Fields of a named tuple."""
    if v is None or v[0] not in ("call", "new"):
        return None
    q = v[1][1] if isinstance(v[1], tuple) else v[1]
    if q != qual:
        return None
    m, _, name = qual.rpartition(".")
    names = None
    for n in ctx.prog.modules[m].tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name and isinstance(n.value, ast.Call) and len(n.value.args) > 1:
            x = fold(ctx.prog, ctx.prog.modules[m], n.value.args[1])
            names = x.replace(",", " ").split() if isinstance(x, str) else list(x)
    if names is None:
        raise AnalysisBroken("%s is no named tuple" % qual)
    out = dict(zip(names, [x for x in v[2] if x[0] != "kw"]))
    out.update((x[1], x[2]) for x in v[2] if x[0] == "kw")
    return out


def info_end(sc, info):
    return None


def place(ctx, loc, src, first, pos, ends, line, isend=None):
    """A source location: file, line number, columns and text."""
    at = tupled(ctx, M + "SourceLocation", loc)
    if at is None or set(at) != {"filename", "lineno", "startcol", "endcol", "line"}:
        return False
    name, no, a, b, text = [at[x] for x in ("filename", "lineno", "startcol", "endcol", "line")]
    if name != A(src, "name") or pos is not None and a != pos or (text != line if line is not None else not any(is_line(t, src) for t in subterms(text))):
        return False
    if not (no[0] == "bin" and no[1] == "+" and first in no[2:] and any(x[0] == "index" for x in no[2:]) or no[0] == "phi"):
        return False
    return isend(b) if isend else b in (pos,) or b in plus(pos)


KEEPS = {"backslashreplace"}
EIGHT = {"latin-1", "latin1", "latin_1", "iso-8859-1", "iso8859-1", "l1", "8859", "cp819"}
SEVEN = {"ascii", "us-ascii"}
ESCAPES = {"unicode_escape", "unicode-escape"}
LENIENT = {"ignore", "replace", "surrogateescape", "xmlcharrefreplace", "namereplace", "surrogatepass"}


def _consts(c, *names):
    out = []
    for i, n in enumerate(names):
        a = c.arg(i, n)
        if a is not None and a[0] == "c" and isinstance(a[2], str):
            out.append(a[2].lower())
        else:
            out.append(None if a is None else "?")
    return out


@rule("string-value", "P15 P20 P16", floor=1)
def string_value(ctx):
    """The text of a string literal is what stands between the quotes with its escapes decoded once, from the left: the
    quotes are cut off by position, every character survives the encoding the decoder works on (the escape decoder takes
    bytes as latin-1), nothing undecodable is dropped."""
    f = ctx.prog.func("agentspeak.parse_string")
    S = param(f.node.args.args[0].arg)
    for p in ctx.paths(f):
        if p.kind != "return":
            continue
        ctx.ob()
        by = {c.res: c for c in p.calls}
        v, steps, sliced = p.val, [], False
        while v is not None and v != S:
            c = by.get(v)
            if v[0] == "i" and v[2][0] == "slice":
                lo, hi = v[2][1], v[2][2]
                if v[1] == S:
                    sliced = True
                    long = hi is not None and hi[0] not in ("c",)
                    if lo != const(1) or not (hi == const(-1) or long):
                        ctx.bad(f, "cuts off something else than the quotes of a string", path=p, sub="quotes")
                v = v[1]
                continue
            if c is None or c.recv is None:
                break
            if c.name in ("strip", "lstrip", "rstrip"):
                ctx.bad(f, "strips characters off a string: what is next to the quotes would go as well", c.node, p, "quotes")
            if c.name == "replace":
                a = c.arg(0, "old")
                if a is not None and a[0] == "c" and isinstance(a[2], str) and a[2].startswith("\\"):
                    ctx.bad(f, "decodes one escape after the other: an escaped backslash followed by a letter is taken for an escape",
                            c.node, p, "escape")
            steps.append(c)
            v = c.recv
        steps.reverse()
        coded = None
        for c in steps:
            if c.name == "encode":
                coded = _consts(c, "encoding", "errors")
            elif c.name == "decode" and coded is not None:
                enc, err = coded
                how, lost = _consts(c, "encoding", "errors")
                if lost in LENIENT or err in LENIENT:
                    ctx.bad(f, "drops or changes what cannot be coded instead of reporting it", c.node, p, "lossy")
                elif how in ESCAPES and enc in EIGHT | SEVEN and err not in KEEPS and err != "?":
                    ctx.bad(f, "cannot read a string with a character outside of %s" % enc, c.node, p, "coding")
                elif how in ESCAPES and enc not in EIGHT | SEVEN | {"raw_unicode_escape", "raw-unicode-escape", "?"}:
                    ctx.bad(f, "decodes the escapes of bytes that are not latin-1: every other character is mangled", c.node, p, "coding")
                elif how not in ESCAPES and how != "?" and (enc or "utf-8").replace("_", "-") != (how or "utf-8").replace("_", "-"):
                    ctx.bad(f, "decodes with another coding than it encoded with", c.node, p, "coding")
                coded = None
        if v == S and not steps and (sliced or p.val == S):
            ctx.bad(f, "leaves the escapes of a string undecoded", path=p, sub="escape")
        if v == S and steps and not sliced and not any(c.name in ("strip", "lstrip", "rstrip") for c in steps):
            ctx.bad(f, "leaves the quotes in the string", path=p, sub="quotes")
