"""Extracts the language that a parser function accepts, as an automaton over token kinds and sub-parsers, from the
paths of the function, and compares it with a reference grammar.

A parser function takes the current token, the remaining tokens and a log, and returns the next current token together
with what it parsed.  On a path, `next(tokens)` consumes the current token, whose possible kinds follow from the tests
made on it; a call of another parser function consumes what that function accepts; the returned token is not consumed
(lookahead).  Loops become states of the automaton."""
from .core import P, A, AnalysisBroken
from .flow import Path, NONE, const, show, subterms
from . import rx
from .tokens import truth

PARSER = "agentspeak.parser."
EOF = "<end of file>"


# ------------------------------------------------------------ full paths

def expand(events, cap=6000):
    """Linear event lists: every combination of the alternatives of merged loops."""
    outs = [[]]
    for e in events:
        if e[0] == "alts":
            segs = [x for s in e[2] for x in expand(s, cap)]
            outs = [o + s for o in outs for s in segs]
        else:
            for o in outs:
                o.append(e)
        if len(outs) > cap:
            raise AnalysisBroken("too many paths")
    return outs


def all_paths(ctx, f):
    """Complete paths and loop iterations ("back"), with every combination of alternatives."""
    base = ctx.paths(f)
    its = ctx.iterations(f)
    out, seen = [], set()
    for p in list(base) + list(its):
        k = (id(p.path.state), p.kind, getattr(p, "lid", None))
        if k in seen:
            continue
        seen.add(k)
        for ev in expand(p.path.state.events()):
            q = P(Path(p.path.func, p.path.state, p.kind, p.val, p.path.flow, ev))
            q.lid = getattr(p, "lid", None)
            out.append(q)
    return out


# ------------------------------------------------------------ token tests

class Kinds(object):
    """Token kinds of the source and the tests on them."""

    def __init__(self, table):
        self.table = [t for t in table if not (truth(t.attrs.get("space")) or truth(t.attrs.get("comment")))]
        self.all = frozenset(t.kind for t in self.table)
        self.by_kind = {}
        for t in self.table:
            self.by_kind.setdefault(t.kind, []).append(t)
        self.lex = {}
        self.full = table

    def of_lexeme(self, s):
        """The kind a token with this lexeme has."""
        if s not in self.lex:
            r = None
            for t in self.full:
                n = rx.matched(t.regex, s)
                # lookaheads hide keywords from the functors: a fixed string wins
                lits = [u for u in self.full if u.lit == s]
                if n is not None:
                    r = lits[0].kind if lits and n >= len(s) else t.kind if n == len(s) else None
                    break
            self.lex[s] = r
        return self.lex[s]

    def attr(self, kind, *names):
        return [t.attrs.get(names[0]) for t in self.by_kind[kind]]

    def test(self, tok, pred, pol):
        """Kinds that the token may have when the test had this outcome; None if it is no test of this token."""
        L, T = A(tok, "lexeme"), A(tok, "token")
        if pred[0] in ("eq", "is") and L in pred[1:]:
            o = pred[2] if pred[1] == L else pred[1]
            if o[0] == "c" and isinstance(o[2], str):
                k = self.of_lexeme(o[2])
                if pol:
                    return frozenset([k] if k in self.all else [])
                fixed = [t for t in self.table if t.kind == k and t.lit == o[2]]
                return self.all - ({k} if fixed and len(self.by_kind[k]) == 1 else set())
            return None
        v = neg = None
        if pred[0] == "truth" and pred[1][0] == "a" and pred[1][1] == T:
            f = lambda x: truth(x)
            v = pred[1][2]
        elif pred[0] in ("is", "eq") and any(x[0] == "a" and x[1] == T for x in pred[1:]) :
            x, o = (pred[1], pred[2]) if pred[1][0] == "a" and pred[1][1] == T else (pred[2], pred[1])
            v = x[2]
            if o[0] == "c":
                f = lambda y: y is o[2] if o[2] is None or isinstance(o[2], bool) else y == o[2]
            elif o[0] == "g":
                f = lambda y: y == ("member",) + tuple(o[1].split(".")[-2:])
            else:
                return None
        else:
            return None
        r = set()
        for t in self.table:
            if v not in t.attrs:
                raise AnalysisBroken("tokens have no attribute %s" % v)
            if f(t.attrs[v]) == pol:
                r.add(t.kind)
        return frozenset(r)


# ------------------------------------------------------------ extraction

class Item(object):
    """One step of a path: a consumed token ("T") or a sub-parse ("N")."""
    __slots__ = ("what", "name", "kinds", "tok", "value", "i", "seg")

    def __init__(self, what, name, kinds, tok, value, i):
        self.what, self.name, self.kinds, self.tok, self.value, self.i = what, name, kinds, tok, value, i

    def __repr__(self):
        return "%s:%s/%d" % (self.what, self.name or "", len(self.kinds))


class Edge(object):
    """A piece of a path between two states of the automaton."""

    def __init__(self, p, src, items, end, last, free):
        self.p, self.src, self.items, self.end, self.last, self.free = p, src, items, end, last, free
        for it in items:
            it.seg = src


class Extract(object):
    def __init__(self, ctx, f, kinds, parsers, started=True, only=None):
        self.ctx, self.f, self.kinds, self.parsers = ctx, f, kinds, parsers
        pars = f.params
        self.first = ("p", pars[0]) if started else None
        self.stream, self.log = ("p", pars[1]), ("p", pars[2])
        self.problems = []
        self.edges = []
        self.paths = []
        self.carriers = {}       # loop -> names of the variables that carry the current token
        self.backs = []
        for p in all_paths(ctx, f):
            if p.kind not in ("return", "back"):
                continue
            if any(c.name == "error" and c.recv == self.log for c in p.calls):
                continue                 # recorded as an error: not accepted
            if only is not None and not only(p):
                continue
            if not self.feasible(p):
                continue
            try:
                self.paths.append(p)
                self.walk(p)
            except Stale as e:
                self.problems.append((str(e), p))
        for p, cur in self.backs:
            for name in self.carriers.get(p.lid, ()):
                vs = [v for k, v in p.path.env.items() if k[1] == name]
                if cur is None or cur not in vs:
                    self.problems.append(("goes on with another token than the one that follows", p))

    def feasible(self, p):
        """No token is taken for none, nor for one that no line of the token table allows."""
        toks = []
        for e in p.events:
            if e[0] != "fact":
                continue
            if e[1][0] == "is" and NONE in e[1][1:] and e[2]:
                o = e[1][1] if e[1][2] == NONE else e[1][2]
                if o[0] in ("elem", "call") and (o[1] == self.stream or o[0] == "call" and o[1] == ("g", "builtins.next") and o[2] == (self.stream,)):
                    return False
            toks += [v for v in self.uses_token(e) if v not in toks]
        return all(self.types(p, v) for v in toks)

    def types(self, p, tok):
        r = self.kinds.all
        for pr, pol, i in p.facts():
            k = self.kinds.test(tok, pr, pol)
            if k is not None:
                r &= k
        # what a block result says about the token it began with is added by the caller
        return r

    def parser_of(self, c):
        if c.qual.startswith(PARSER) and c.recv is None:
            return self.parsers.get(c.qual[len(PARSER):])
        return None

    def uses_token(self, e):
        """Token values an event looks at."""
        out = []
        if e[0] == "fact":
            for t in subterms(e[1]):
                if t and t[0] == "a" and t[2] in ("lexeme", "token"):
                    out.append(t[1])
        return out

    def walk(self, p):
        cur, free = self.first, False      # free: the kinds come from the state the piece starts in
        src, items = "entry", []
        lids = set()
        ended = None
        if self.first is not None:
            free = False
        pending_split = None
        for i, e in enumerate(p.events):
            if e[0] == "loop" and e[2] is None:
                lids.add(e[1])
                pending_split, at = e[1], i
            elif e[0] == "fact":
                for v in self.uses_token(e):
                    if v[0] == "phi" and v[1] in lids and v != cur and src != ("head", v[1]):
                        self.carry(p, v, cur, src)
                        self.split(p, src, items, v[1], cur, free)
                        src, items, cur, free = ("head", v[1]), [], v, True
            elif e[0] == "iter" and e[2] is None and e[1] in lids and pending_split == e[1]:
                if self.dead_token(p, at, cur, e[1]):
                    # the token before the loop is not looked at again: also the start of a later iteration
                    self.split(p, src, items, e[1], cur, free)
                    src, items, cur, free = ("head", e[1]), [], ("any", e[1]), True
                pending_split = None
            elif e[0] == "call":
                c = [c for c in p.calls if c.i == i][0]
                res = e[4] if len(e) > 4 and isinstance(e[4], tuple) else c.res
                is_next = c.qual in ("builtins.next", "next") and c.args[:1] == (self.stream,) or \
                    c.recv == self.stream and c.name in ("next", "__next__")
                if is_next:
                    if c.res[0] == "exhausted" or self.exhausted(p, i):
                        ended = True
                        if cur is not None:
                            items.append(Item("T", None, self.types(p, cur) if cur[0] != "any" else self.kinds.all, cur, None, i))
                            cur = None
                        continue
                    if cur is not None:
                        items.append(Item("T", None, self.types(p, cur) if cur[0] != "any" else self.kinds.all, cur, cur, i))
                    cur = c.res
                elif self.parser_of(c):
                    name, mode = self.parser_of(c)
                    if mode == "tok":
                        if len(c.args) < 3 or c.args[1] != self.stream or c.args[2] != self.log:
                            raise Stale("hands other tokens to %s" % c.name)
                        t = c.args[0]
                        if t != cur:
                            if t[0] == "phi" and t[1] in lids and src != ("head", t[1]):
                                self.carry(p, t, cur, src)
                                self.split(p, src, items, t[1], cur, free)
                                src, items, cur, free = ("head", t[1]), [], t, True
                            else:
                                raise Stale("parses an old token again, or drops one, before %s" % c.name)
                        items.append(Item("N", name, self.types(p, cur), cur, ("i", c.res, const(1)), i))
                        cur = ("i", c.res, const(0))
                    elif mode == "stream" and self.stream in c.args:
                        if cur is not None:
                            items.append(Item("T", None, self.types(p, cur) if cur[0] != "any" else self.kinds.all, cur, cur, i))
                        items.append(Item("N", name, self.kinds.all, None, c.res, i))
                        cur = ("last", name, c.res)
        if p.kind == "back":
            self.edges.append(Edge(p, src, items, ("head", p.lid), cur, free))
            self.backs.append((p, cur))
            return
        val = p.val
        if ended:
            self.edges.append(Edge(p, src, items, EOF, None, free))
            return
        if self.first is None:
            self.edges.append(Edge(p, src, items, "exit", cur, free))
            return
        t = val[1][0] if val[0] == "tuple" and len(val[1]) == 2 else ("i", val, const(0))
        if t != cur:
            if t[0] == "phi" and t[1] in lids and src != ("head", t[1]):
                self.carry(p, t, cur, src)
                self.split(p, src, items, t[1], cur, free)
                src, items, cur, free = ("head", t[1]), [], t, True
            else:
                raise Stale("returns another token than the one that follows")
        self.edges.append(Edge(p, src, items, "exit", cur, free))

    def exhausted(self, p, i):
        return i + 1 < len(p.events) and p.events[i + 1][0] == "except" and "StopIteration" in str(p.events[i + 1][1])

    def carry(self, p, v, cur, src):
        self.carriers.setdefault(v[1], set()).add(v[2])
        init = [x for k, x in p.flow.loops.get(v[1], {}).get("init", {}).items() if k[1] == v[2]]
        if src == "entry" and init and cur not in init:
            raise Stale("enters a loop with an old token")

    def split(self, p, src, items, lid, cur, free):
        self.edges.append(Edge(p, src, list(items), ("head", lid), cur, free))

    def dead_token(self, p, i, cur, lid):
        """After the start of an iteration the next token is read before the current one is looked at."""
        for j in range(i + 1, len(p.events)):
            e = p.events[j]
            if e[0] == "fact" and any(v == cur or v[0] == "phi" and v[1] == lid for v in self.uses_token(e)):
                return False
            if e[0] == "call":
                c = [c for c in p.calls if c.i == j][0]
                if c.qual in ("builtins.next", "next") and c.args[:1] == (self.stream,):
                    # a loop variable that was looked at in the iteration before tells its kind there
                    phis = [t for pr, pol, k in p.facts() for t in self.uses_token(("fact", pr)) if t[0] == "phi" and t[1] == lid]
                    return not phis
                if self.parser_of(c):
                    return False
        return False


class Stale(Exception):
    pass


# ------------------------------------------------------------ reference grammar

def seq(*xs):
    return ("seq", xs)


def alt(*xs):
    return ("alt", xs)


def star(*xs):
    return ("star", seq(*xs))


def opt(*xs):
    return ("alt", (seq(*xs), ("seq", ())))


def t(kinds, role=None):
    return ("t", frozenset(kinds.split() if isinstance(kinds, str) else kinds), role)


def n(name, role=None, la=None):
    return ("n", name, role, frozenset(la.split()) if la else None)


class Spec(object):
    """Automaton of a reference grammar: transitions labelled ("T", kind) or ("N", name, kind of the first token)."""

    def __init__(self, g, end=None):
        self.eps, self.tr = [], []
        self.final = self.state()
        self.start = self.build(g, self.final)
        self.end = None if end is None else frozenset(end.split())

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, g, nxt):
        if g[0] == "seq":
            for x in reversed(g[1]):
                nxt = self.build(x, nxt)
            return nxt
        s = self.state()
        if g[0] == "alt":
            self.eps[s] = [self.build(x, nxt) for x in g[1]]
        elif g[0] == "star":
            self.eps[s] = [self.build(g[1], s), nxt]
        elif g[0] == "t":
            self.tr[s].append((g, nxt))
        else:
            self.tr[s].append((g, nxt))
        return s

    def close(self, S):
        out, todo = set(), list(S)
        while todo:
            s = todo.pop()
            if s not in out:
                out.add(s)
                todo += self.eps[s]
        return frozenset(out)


class Grammar(object):
    def __init__(self, specs, everything):
        self.specs = specs              # name -> Spec
        self.everything = everything
        self.first = {k: frozenset() for k in specs}
        changed = True
        while changed:
            changed = False
            for k, s in specs.items():
                r = frozenset(x for st in s.close([s.start]) for x in self.begins(s, st))
                if r != self.first[k]:
                    self.first[k] = r
                    changed = True

    def begins(self, spec, st):
        out = set()
        for g, _ in spec.tr[st]:
            if g[0] == "t":
                out |= g[1]
            else:
                out |= self.first.get(g[1], frozenset()) & (g[3] if g[3] is not None else self.everything)
        return out

    def step(self, spec, S, label):
        """-> (next states, roles)"""
        out, roles = set(), set()
        for s in S:
            for g, nxt in spec.tr[s]:
                if g[0] == "t" and label[0] == "T" and label[1] in g[1] or \
                        g[0] == "n" and label[0] == "N" and label[1] == g[1] and label[2] in self.first[g[1]] and \
                        (g[3] is None or label[2] in g[3]):
                    out.add(nxt)
                    roles.add(g[2])
        return spec.close(out), roles

    def ends(self, spec, S):
        """Tokens that may follow when the construct ends here."""
        if spec.final not in S:
            return frozenset()
        if spec.end is not None:
            return spec.end
        return self.everything - frozenset(x for s in S for x in self.begins(spec, s))


class Compare(object):
    """Explores the automaton of the source together with the reference."""

    def __init__(self, ex, grammar, spec, start_kinds=None, blocks=None, eof=False, last=None):
        self.ex, self.g, self.spec = ex, grammar, spec
        self.extra = []           # (word, edge) accepted by the source only
        self.missing = []         # words of the reference that the source does not accept
        self.visits = []          # (edge, item, roles, label)
        self.blocks, self.eof, self.last = blocks, eof, last
        self.run(start_kinds)

    def words(self, edge, start):
        """Sequences of label sets of an edge, the kinds at its end, or None if it is impossible."""
        p, ks = edge.p, self.ex.kinds
        seq = []
        for k, it in enumerate(edge.items):
            kinds = it.kinds
            if it.tok is not None and it.tok[0] == "last":
                kinds = self.last[it.tok[1]]
            if it.tok is not None and it.tok[0] == "any" and start is None:
                continue             # nothing was read yet
            if k == 0 and edge.free and (it.tok is None or it.tok[0] in ("phi", "any") or it.what == "T"):
                if it.tok is not None and (it.tok[0] == "any" or it.tok[0] == "phi"):
                    kinds = kinds & start
            if k == 0 and it.tok is not None and it.tok == self.ex.first and start is not None and not edge.free:
                kinds = kinds & start
            if it.what == "N":
                kinds = kinds & self.g.first[it.name]
                b = self.block(p, it.value) if it.name == "body_formula" else None
                if b is not None and self.blocks:
                    kinds = kinds & self.blocks if b else kinds - self.blocks
                labels = frozenset(("N", it.name, x) for x in kinds)
            else:
                labels = frozenset(("T", x) for x in kinds)
            if not labels:
                return None
            seq.append((labels, it))
        if edge.end == EOF:
            end = frozenset([EOF])
        elif edge.last is None:
            end = None
        elif edge.last[0] == "any":
            end = start
        elif edge.last[0] == "last":
            end = self.last[edge.last[1]]
        else:
            end = self.ex.types(p, edge.last)
            if edge.free and not edge.items and edge.last[0] == "phi" or (not edge.items and edge.last == self.ex.first and start is not None):
                end = end & start
        if end is not None and not end:
            return None
        return seq, end

    def block(self, p, value):
        """Does the path know whether the formula is a block?"""
        for pr, pol, i in p.facts():
            if pr[0] == "isinst" and pr[1] == value:
                cls = [pr[2]] if isinstance(pr[2], str) else list(pr[2])
                cls = [x.rsplit(".", 1)[-1] for x in map(str, cls)]
                if any(x == "AstFormula" for x in cls):
                    return not pol
                if cls and all(x in ("AstWhile", "AstFor", "AstIfThenElse") for x in cls) and len(cls) == 3:
                    return pol
                raise AnalysisBroken("unknown test on a formula")
        return None

    def run(self, start_kinds):
        ex, g, spec = self.ex, self.g, self.spec
        # nondeterministic automaton of the source: state = ("entry"|("head",lid), kinds) or inner states
        trans = {}          # state -> list of (labels, state, edge, item)
        finals = {}         # state -> set of kinds
        bysrc = {}
        for e in ex.edges:
            bysrc.setdefault(e.src, []).append(e)
        s0 = ("entry", start_kinds)
        todo, done = [s0], set()
        empties = {}
        while todo:
            s = todo.pop()
            if s in done:
                continue
            done.add(s)
            for ei, e in enumerate(bysrc.get(s[0], ())):
                w = self.words(e, s[1])
                if w is None:
                    continue
                seq_, end = w
                cur = s
                tgt = (e.end, end) if e.end not in ("exit", EOF) else None
                for k, (labels, it) in enumerate(seq_):
                    nxt = ("in", s, ei, k + 1)
                    trans.setdefault(cur, []).append((labels, nxt, e, it))
                    cur = nxt
                if tgt is not None:
                    empties.setdefault(cur, set()).add(tgt)
                    todo.append(tgt)
                else:
                    finals.setdefault(cur, []).append((end if end is not None else frozenset(), e))

        def close(S):
            out, st = set(), list(S)
            while st:
                x = st.pop()
                if x not in out:
                    out.add(x)
                    st += list(empties.get(x, ()))
            return frozenset(out)

        start = (close([s0]), spec.close([spec.start]))
        seen, todo = {start: ()}, [start]
        steps = 0
        while todo:
            cur = todo.pop(0)
            I, S = cur
            word = seen[cur]
            # ends
            have = {}
            for s in I:
                for ks, e in finals.get(s, ()):
                    for k in ks:
                        have.setdefault(k, e)
            want = g.ends(spec, S) if not self.eof else (self.eof if spec.final in S else frozenset())
            for k in set(have) - set(want):
                self.extra.append((word, "ends before %s" % k, have[k]))
            for k in set(want) - set(have):
                self.missing.append((word, "may end before %s" % k))
            labels = {l for s in I for ls, _, _, _ in trans.get(s, ()) for l in ls}
            wl = set()
            for s in S:
                for gg, _ in spec.tr[s]:
                    if gg[0] == "t":
                        wl |= {("T", k) for k in gg[1]}
                    else:
                        wl |= {("N", gg[1], k) for k in g.first[gg[1]] & (gg[3] if gg[3] is not None else g.everything)}
            for l in sorted(labels | wl):
                steps += 1
                nI = close([n_ for s in I for ls, n_, _, _ in trans.get(s, ()) if l in ls])
                nS, roles = g.step(spec, S, l)
                if l in wl:
                    for s in I:
                        for ls, n_, e, it in trans.get(s, ()):
                            if l in ls:
                                self.visits.append((e, it, frozenset(roles), l))
                if not nI and not nS:
                    continue
                if not nI:
                    self.missing.append((word, spell(l)))
                    continue
                if not nS:
                    e = [e for s in I for ls, _, e, _ in trans.get(s, ()) if l in ls][0]
                    self.extra.append((word, spell(l), e))
                    continue
                st = (nI, nS)
                if st not in seen:
                    seen[st] = word + (spell(l),)
                    todo.append(st)
            if len(seen) > 5000:
                raise AnalysisBroken("grammar comparison does not end")
        self.states = len(seen)
        self.steps = steps


def spell(l):
    return l[1] if l[0] == "T" else "<%s>" % l[1]
