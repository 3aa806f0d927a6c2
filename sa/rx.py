"""Regular expressions as automata: decides whether two patterns match the same prefix of every text.

A pattern becomes an NFA whose threads are ordered by priority, as in a backtracking matcher; the ordered sets of
threads form a deterministic automaton.  Two patterns behave alike iff in the product of their automata the matched
marks agree everywhere.  Negative lookaheads are symbols of the alphabet, identified by the language they exclude."""
import re
try:
    import re._parser as sre
    import re._constants as C
except ImportError:                                 # older Python
    import sre_parse as sre
    import sre_constants as C

# one character per class that the expressions of a lexer can tell apart, and all of ASCII
ALPHABET = [chr(i) for i in range(128)] + [u"\xe9", u"\xc9", u"\u0663", u"\xa0", u"\u4e2d", u"\xdf", u"\u2028"]
END = "<end>"


class Unsupported(Exception):
    pass


def literal(pattern):
    """The only string that the pattern matches, or None."""
    try:
        t = sre.parse(pattern)
    except re.error:
        return None
    out = []
    for op, av in flat(t):
        if op is C.LITERAL:
            out.append(chr(av))
        elif op is C.IN and len(av) == 1 and av[0][0] is C.LITERAL:
            out.append(chr(av[0][1]))
        else:
            return None
    return "".join(out)


def flat(t):
    for op, av in t:
        if op is C.SUBPATTERN and not (av[1] or av[2]):
            for x in flat(av[3]):
                yield x
        elif op is C.MAX_REPEAT and av[0] == av[1]:
            for _ in range(av[0]):
                for x in flat(av[2]):
                    yield x
        else:
            yield op, av


def category(cat, c):
    n = str(cat)
    neg = "NOT" in n
    if "DIGIT" in n:
        r = c.isdigit() and c.isdecimal()
    elif "SPACE" in n:
        r = c.isspace()
    elif "WORD" in n:
        r = c.isalnum() or c == "_"
    else:
        raise Unsupported(n)
    return r != neg


def charset(items):
    neg = False
    r = set()
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            r.add(chr(av))
        elif op is C.RANGE:
            r |= {c for c in ALPHABET if av[0] <= ord(c) <= av[1]}
        elif op is C.CATEGORY:
            r |= {c for c in ALPHABET if category(av, c)}
        else:
            raise Unsupported(str(op))
    return frozenset(c for c in ALPHABET if (c in r) != neg)


class NFA(object):
    def __init__(self, pattern, ends=False):
        self.pattern = pattern
        self.eps = []        # state -> ordered list of states
        self.on = []         # state -> (set of symbols, target) or None
        self.ends = ends     # inside a lookahead: the end of the text is a symbol
        self.lazy = False
        try:
            t = sre.parse(pattern) if isinstance(pattern, str) else pattern
        except re.error as e:
            raise Unsupported(str(e))
        if isinstance(pattern, str) and t.state.flags & ~re.UNICODE:
            raise Unsupported("flags")
        self.final = self.new()
        self.start = self.build(t, self.final)

    def new(self):
        self.eps.append([])
        self.on.append(None)
        return len(self.eps) - 1

    def build(self, t, nxt):
        for op, av in reversed(list(t)):
            nxt = self.node(op, av, nxt)
        return nxt

    def node(self, op, av, nxt):
        s = self.new()
        if op is C.LITERAL:
            self.on[s] = (frozenset([chr(av)]), nxt)
        elif op is C.NOT_LITERAL:
            self.on[s] = (frozenset(c for c in ALPHABET if c != chr(av)), nxt)
        elif op is C.ANY:
            self.on[s] = (frozenset(c for c in ALPHABET if c != "\n"), nxt)
        elif op is C.IN:
            self.on[s] = (charset(av), nxt)
        elif op is C.BRANCH:
            self.eps[s] = [self.build(b, nxt) for b in av[1]]
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags")
            self.eps[s] = [self.build(av[3], nxt)]
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            if op is C.MIN_REPEAT:
                self.lazy = True
            if hi is C.MAXREPEAT:
                loop = self.new()
                b = self.build(body, loop)
                self.eps[loop] = [b, nxt] if op is C.MAX_REPEAT else [nxt, b]
                cur = loop
            else:
                if hi > 60:
                    raise Unsupported("repeat")
                cur = nxt
                for _ in range(hi - lo):
                    k = self.new()
                    b = self.build(body, cur)
                    self.eps[k] = [b, nxt] if op is C.MAX_REPEAT else [nxt, b]
                    cur = k
            for _ in range(lo):
                cur = self.build(body, cur)
            self.eps[s] = [cur]
        elif op is C.ASSERT_NOT and av[0] == 1:
            self.on[s] = (frozenset(["!" + language(av[1])]), nxt)
        elif op is C.ASSERT and av[0] == 1:
            self.on[s] = (frozenset(["=" + language(av[1])]), nxt)
        elif op is C.AT and self.ends and av in (C.AT_END, C.AT_END_STRING):
            self.on[s] = (frozenset([END]), nxt)
        elif op is C.AT and self.ends and av is C.AT_BOUNDARY:
            # a word was just read
            self.on[s] = (frozenset([END] + [c for c in ALPHABET if not category("WORD", c)]), nxt)
        else:
            raise Unsupported(str(op))
        return s

    def close(self, states):
        """Ordered threads, cut behind the first match."""
        out, seen = [], set()

        def walk(s):
            if s in seen:
                return
            seen.add(s)
            if s == self.final or self.on[s] is not None:
                out.append(s)
                return
            for x in self.eps[s]:
                walk(x)
        for s in states:
            walk(s)
        if self.final in out:
            out = out[:out.index(self.final) + 1]
        return tuple(out)

    def step(self, states, sym):
        return self.close([self.on[s][1] for s in states if self.on[s] is not None and sym in self.on[s][0]])

    def symbols(self):
        r = set()
        for x in self.on:
            if x is not None:
                r |= {s for s in x[0] if len(s) > 1}
        return r


def language(t):
    """A canonical name for the texts that begin with a match of t (a lookahead)."""
    n = NFA(t, ends=True)
    syms = list(ALPHABET) + [END]
    start = frozenset(n.close([n.start]))
    # plain subset construction; once matched, everything may follow
    acc = lambda S: n.final in S
    start = frozenset(["M"]) if acc(start) else start
    states, todo, delta = {start: 0}, [start], {}
    while todo:
        S = todo.pop()
        for c in syms:
            T = S if "M" in S else frozenset(full(n, [n.on[s][1] for s in S if n.on[s] is not None and c in n.on[s][0]]))
            if "M" not in T and acc(T):
                T = frozenset(["M"])
            if T not in states:
                states[T] = len(states)
                todo.append(T)
            delta[states[S], c] = states[T]
    # minimise
    part = {i: int("M" in S) for S, i in states.items()}
    while True:
        sig = {i: (part[i],) + tuple(part[delta[i, c]] for c in syms) for i in part}
        names = {}
        for i in sorted(sig):
            names.setdefault(sig[i], len(names))
        new = {i: names[sig[i]] for i in sig}
        if len(set(new.values())) == len(set(part.values())):
            part = new
            break
        part = new
    order, queue, canon = {part[0]: 0}, [part[0]], []
    rep = {}
    for i in part:
        rep.setdefault(part[i], i)
    accs = {part[i] for S, i in states.items() if "M" in S}
    while queue:
        q = queue.pop(0)
        row = []
        for c in syms:
            t = part[delta[rep[q], c]]
            if t not in order:
                order[t] = len(order)
                queue.append(t)
            row.append(order[t])
        canon.append((q in accs, tuple(row)))
    import hashlib
    return "look" + hashlib.md5(repr(canon).encode()).hexdigest()


def full(n, states):
    out, todo = set(), list(states)
    while todo:
        s = todo.pop()
        if s in out:
            continue
        out.add(s)
        todo += n.eps[s]
    return out


def differ(a, b):
    """A text on which the two patterns match different prefixes, or None."""
    x, y = NFA(a), NFA(b)
    syms = list(ALPHABET) + sorted(x.symbols() | y.symbols())
    s = (x.close([x.start]), y.close([y.start]))
    seen, todo = {s: ""}, [s]
    while todo:
        s = todo.pop(0)
        p, q = s
        if (x.final in p) != (y.final in q):
            return seen[s]
        for c in syms:
            t = (x.step(p, c), y.step(q, c))
            if t != ((), ()) and t not in seen:
                seen[t] = seen[s] + (c if len(c) == 1 else "")
                todo.append(t)
        if len(seen) > 20000:
            raise Unsupported("too many states")
    return None


def matched(pattern, text):
    """Length of the prefix that the pattern matches (lookaheads are assumed to hold), or None."""
    n = NFA(pattern)

    def look(S):
        # lookaheads hold
        while True:
            T = []
            for s in S:
                T.append(n.on[s][1] if n.on[s] is not None and any(len(c) > 1 for c in n.on[s][0]) else s)
            if T == list(S):
                return S
            S = n.close(T)
    S = look(n.close([n.start]))
    best = 0 if n.final in S else None
    for i, c in enumerate(text):
        S = look(n.step(S, c))
        if not S:
            break
        if n.final in S:
            best = i + 1
    return best


def conflict(a, b):
    """Is there a text that both patterns match a (non-empty) prefix of?  (Lookaheads are assumed to hold.)"""
    x, y = NFA(a), NFA(b)

    def clo(n, S):
        S = full(n, S)
        while True:
            T = set(S)
            for s in S:
                if n.on[s] is not None and any(len(c) > 1 for c in n.on[s][0]):
                    T |= full(n, [n.on[s][1]])
            if T == S:
                return frozenset(S)
            S = T
    start = (clo(x, [x.start]), clo(y, [y.start]), False, False)
    seen, todo = {start}, [start]
    while todo:
        p, q, mp, mq = todo.pop()
        for c in ALPHABET:
            tp = clo(x, [x.on[s][1] for s in p if x.on[s] is not None and c in x.on[s][0]])
            tq = clo(y, [y.on[s][1] for s in q if y.on[s] is not None and c in y.on[s][0]])
            np, nq = mp or x.final in tp, mq or y.final in tq
            if np and nq:
                return True
            if not tp and not np or not tq and not nq:
                continue
            t = (tp, tq, np, nq)
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return False


def prefix_free(pattern):
    """No match is a proper prefix of another one."""
    n = NFA(pattern)
    S0 = frozenset(full(n, [n.start]))
    seen, todo = {S0}, [S0]
    while todo:
        S = todo.pop()
        for c in ALPHABET:
            T = frozenset(full(n, [n.on[s][1] for s in S if n.on[s] is not None and c in n.on[s][0]]))
            if n.final in S and T:
                return False
            if T and T not in seen:
                seen.add(T)
                todo.append(T)
    return True
