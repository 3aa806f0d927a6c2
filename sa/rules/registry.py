"""The action tables: registration, lookup, argument conversion."""
from ..core import rule, A, G, AnalysisBroken
from ..flow import NONE, TRUE, FALSE, const, show, subterms
from ..pat import *
from .terms import M, need_method
from .queries import aslerr
from .agents import truthy, eqf

AC = M + "Actions"
ACTIONS, VARIADIC, PARENT = A(SELF, "actions"), A(SELF, "variadic_actions"), A(SELF, "parent")
FUNCTOR, ARITY, SPECS, FN = param("functor"), param("arity"), param("arg_specs"), param("f")
GROUP = ("tuple", (FUNCTOR, ARITY))


def present(p, key, table, upto=None):
    """Did the path establish that table has the key?"""
    r = None
    for pr, pol, _ in p.facts(upto):
        if pr == ("in", key, table):
            r = pol
        elif pr[0] in ("is", "eq") and NONE in pr[1:]:
            o = pr[2] if pr[1] == NONE else pr[1]
            if is_call(o, "get") and o[1][1] == table and o[2][0] == key:
                r = not pol
        elif pr[0] == "truth" and is_call(pr[1], "get") and pr[1][1][1] == table and pr[1][2] in ((key,), (key, NONE)):
            r = pol         # implementations are functions: never false
    if r is None and ("i", table, key) in [p.val]:
        r = True
    return r


def entry(v, table, key):
    return v == ("i", table, key) or is_call(v, "get") and v[1][1] == table and v[2][0] == key


@rule("action-lookup", "P22", floor=4)
def action_lookup(ctx):
    """Looking up an action takes the entry for functor and arity, else the one for any number of arguments, else
    asks the extended library, and reports a missing action as KeyError; never anything else."""
    f = need_method(ctx, AC, "lookup")
    kinds = set()
    fn, ar = (param(n) for n in f.params[1:3])
    key = ("tuple", (fn, ar))
    always = not any(ctx.prog.find_method(AC, m) for m in ("__bool__", "__len__"))
    backs = [p for p in ctx.iterations(f) if p.kind == "back"]
    for p in ctx.paths(f) + backs:
        if always and truthy(p, SELF) is False:
            continue            # a registry is never false
        ctx.ob()
        # the registry that is asked: this one, or one of those it extends in a walk along the parents
        walked = {t for e in p.events for x in e[1:] if isinstance(x, tuple) for t in subterms(x) if t and t[0] == "phi"}
        base = walked.pop() if len(walked) == 1 else SELF
        ACTIONS, VARIADIC, PARENT = A(base, "actions"), A(base, "variadic_actions"), A(base, "parent")
        if base != SELF:
            nexts = [{k[1]: v for k, v in b.path.env.items()}.get(base[2]) for b in backs]
            if not nexts or any(v not in (A(base, "parent"), A(SELF, "parent")) for v in nexts):
                ctx.bad(f, "the extended libraries are not asked one after the other", path=p, sub="parent")
                continue
        exact, var = present(p, key, ACTIONS), present(p, fn, VARIADIC)
        missed_exact = exact is False or "KeyError" in excepts(p)
        if p.kind == "back":
            kinds.add("parent")
            if not missed_exact or var is not False and excepts(p).count("KeyError") < 2:
                ctx.bad(f, "the extended library hides own actions", path=p, sub="order")
        elif p.kind == "return":
            if entry(p.val, ACTIONS, key):
                kinds.add("exact")
                if present(p, key, ACTIONS) is False:
                    ctx.bad(f, "a missing action is returned", path=p, sub="exact")
            elif entry(p.val, VARIADIC, fn):
                kinds.add("variadic")
                if not missed_exact:
                    ctx.bad(f, "an action for any number of arguments hides the exact one", path=p, sub="order")
            elif p.val[0] == "call" and p.val[1] == ("a", PARENT, "lookup"):
                kinds.add("parent")
                if p.val[2] != (fn, ar):
                    ctx.bad(f, "the extended library is asked for another action", path=p, sub="parent")
                if not missed_exact or var is not False and excepts(p).count("KeyError") < 2:
                    ctx.bad(f, "the extended library hides own actions", path=p, sub="order")
            else:
                ctx.bad(f, "returns something that was not registered under the name", path=p, sub="result")
        elif p.kind == "raise":
            if not (p.val[0] == "new" and p.val[1] == "builtins.KeyError" or p.val[0] == "g" and p.val[1] == "builtins.KeyError" or p.val[0] == "exc"):
                ctx.bad(f, "a missing action is not reported as such", path=p, sub="missing")
                continue
            kinds.add("missing")
            if base != SELF:
                last = truthy(p, base) is False or truthy(p, PARENT) is False and exact is False and var is False or any(pr[0] == "is" and NONE in pr[1:] and base in pr[1:] and pol for pr, pol, _ in p.facts())
                if not last:
                    ctx.bad(f, "an action is reported missing without looking everywhere", path=p, sub="missing")
            elif truthy(p, PARENT) is not False or exact or var:
                ctx.bad(f, "an action is reported missing without looking everywhere", path=p, sub="missing")
    for k in ("exact", "variadic", "parent"):
        if k not in kinds:
            ctx.bad(f, "%s actions are never found" % k, sub=k)


@rule("action-add", "P22", floor=4)
def action_add(ctx):
    """Registering stores exactly the given implementation under functor and arity, or under the functor for any
    number of arguments, after making sure that the place is free; without implementation it is a decorator that
    registers what it decorates."""
    f = need_method(ctx, AC, "add")
    default_none(ctx, f, "f")
    default_none(ctx, f, "arity")
    given = [p for p in ctx.paths(f) if not any(pr[0] == "is" and pol and set(pr[1:]) == {NONE, FN} for pr, pol, _ in p.facts())]
    stored(ctx, f, given, FN, "direct")
    deco = [p for p in ctx.paths(f) if p.kind == "return" and p.val[0] == "func"]
    if not deco:
        ctx.bad(f, "cannot be used as a decorator", sub="decorator")
    for p in deco:
        g = p.flow.info[p.val[2]][0]
        stored(ctx, f, ctx.closure(p, p.val), param(g.params[0]), "decorator")


def default_none(ctx, f, name):
    import ast
    d = f.default(name)
    ctx.check(isinstance(d, ast.Constant) and d.value is None, f, "%s does not default to None" % name, sub="default")


def stored(ctx, f, paths, impl, sub):
    kinds = set()
    for p in paths:
        ctx.ob()
        sets = [(i, e) for i, e in enumerate(p.events) if e[0] == "setitem" and e[1] in (ACTIONS, VARIADIC)]
        if p.kind == "raise":
            if sets:
                ctx.bad(f, "stores and fails", path=p, sub=sub)
            kinds.add("refused")
            continue
        if p.kind != "return":
            continue
        if len(sets) != 1 or any(c.recv in (ACTIONS, VARIADIC) and c.name in ("update", "pop", "clear") for c in p.calls):
            ctx.bad(f, "an action is not stored exactly once", path=p, sub=sub)
            continue
        i, e = sets[0]
        none = any(pr[0] in ("is", "eq") and pol and set(pr[1:]) == {NONE, ARITY} for pr, pol, _ in p.facts())
        want = (VARIADIC, FUNCTOR) if none else (ACTIONS, GROUP)
        if not none and not any(pr[0] in ("is", "eq") and not pol and set(pr[1:]) == {NONE, ARITY} for pr, pol, _ in p.facts()):
            ctx.bad(f, "does not tell a given arity from none", path=p, sub=sub)
        if (e[1], e[2]) != want or e[3] != impl:
            ctx.bad(f, "stored under another name or arity, or something else is stored", path=p, sub=sub)
        if present(p, want[1], want[0], i) is not False:
            ctx.bad(f, "an existing action is silently replaced", path=p, sub=sub)
        if p.val != impl:
            ctx.bad(f, "the decorated function is lost", path=p, sub=sub)
        kinds.add(e[1])
    if not {ACTIONS, VARIADIC} <= kinds:
        ctx.bad(f, "exact or variadic actions are never stored", sub=sub)
    if "refused" not in kinds:
        ctx.bad(f, "registering twice is not refused", sub=sub)


ENV, AGT = G(R_ + "Environment"), G(R_ + "Agent")


def is_spec(p, spec, cls):
    for pr, pol, _ in p.facts():
        if pr[0] in ("is", "eq") and set(pr[1:]) == {spec, cls}:
            return pol
        if pr[0] == "in" and pr[1] == spec and cls in list(subterms(pr[2])) and not pol:
            return False
    return None


def spec_source(src):
    """The argument specifications, as given or as a single one made a tuple."""
    s = strip_conv(src)
    return s == SPECS or s == ("tuple", (SPECS,))


def special(p, spec):
    """True if the path knows that the specification asks for environment or agent, False if for neither."""
    e, a = is_spec(p, spec, ENV), is_spec(p, spec, AGT)
    if e or a:
        return True
    both = any(pr[0] == "in" and pr[1] == spec and pol and {ENV, AGT} <= set(subterms(pr[2])) for pr, pol, _ in p.facts())
    if both:
        return True
    return False if e is False and a is False else None


def check_arity(ctx, f, p, n, extra, sub):
    """n is the number of specifications that take an argument, plus extra."""
    ls = loops_over(p, spec_source)
    single = None
    for l in ls:
        if l[1]["exhausted"] is None:
            ctx.bad(f, "not all arguments are counted", path=p, sub=sub)
            return
    if not ls:
        ctx.bad(f, "the arguments are not counted", path=p, sub=sub)
        return
    l = ls[-1][1]
    want = extra
    unsure = False
    for a, b in l["iters"]:
        spec = p.events[a][2]
        s = special(p, spec)
        if s is None:
            unsure = True
        elif not s:
            want += 1
    if unsure:
        ctx.bad(f, "environment and agent are counted as arguments", path=p, sub=sub)
        return
    # n = base + 1 + 1 ...
    have, v = 0, n
    while v[0] == "bin" and v[1] == "+":
        if v[3][0] == "c":
            have, v = have + v[3][2], v[2]
        elif v[2][0] == "c":
            have, v = have + v[2][2], v[3]
        else:
            break
    if v[0] == "c":
        have += v[2]
    elif v[0] == "len":
        lst = strip_conv(v[1])
        have += len([c for c in p.calls if c.name in ("append", "add") and c.recv == lst])
    elif v[0] == "call" and v[1] == G("builtins.sum"):
        have = want  # counted elsewhere: a sum over a generator of the same loop
    elif v[0] != "phi":
        ctx.bad(f, "the number of arguments is not the number of specifications that take one", path=p, sub=sub)
        return
    if have != want:
        ctx.bad(f, "the number of arguments is not the number of specifications that take one%s" % (" plus one" if extra else ""), path=p, sub=sub)


CONVERT = {G("builtins.int"): "int", G("builtins.float"): "float", G("builtins.tuple"): "tuple"}


def check_arguments(ctx, f, p, lst, fcall, seen):
    """The list passed to the function has one item per specification, in order: environment, agent, or the next
    argument frozen in the scope of the intention and converted."""
    sub = "arguments"
    term = param("term")
    lst = strip_conv(lst)
    ls = loops_over(p, lambda s: any(spec_source(x) for x in loop_sources(s)))
    if len(ls) != 1 or ls[0][1]["exhausted"] is None and p.kind == "return":
        ctx.bad(f, "not every specification gets its argument", path=p, sub=sub)
        return
    memo = None
    used = []
    for a, b in ls[0][1]["iters"]:
        elem = p.events[a][2]
        spec = next((t for t in subterms(elem) if t == SPECS or t[0] == "elem" and spec_source(t[1])), None)
        app = [c for c in p.calls if a < c.i < b and c.recv == lst and c.name == "append"]
        if len(app) != 1 or spec is None:
            ctx.bad(f, "a specification does not get exactly one argument", path=p, sub=sub)
            continue
        v = app[0].args[0]
        env, ag = is_spec(p, spec, ENV), is_spec(p, spec, AGT)
        if v == A(AGENT, "env"):
            seen.add("env")
            if env is not True:
                ctx.bad(f, "the environment is passed where an argument is asked for", path=p, sub=sub)
            continue
        if v == AGENT:
            seen.add("agent")
            if ag is not True:
                ctx.bad(f, "the agent is passed where an argument is asked for", path=p, sub=sub)
            continue
        if env or ag:
            ctx.bad(f, "environment or agent are not passed where asked for", path=p, sub=sub)
            continue
        fz = [c for c in p.calls_to("freeze") if a < c.i < b]
        if len(fz) != 1 or len(fz[0].args) < 3 or fz[0].args[1] != A(INTENTION, "scope"):
            ctx.bad(f, "an argument is passed with its variables, or bindings of another scope", path=p, sub="frozen")
            continue
        if not (fz[0].args[0][0] == "elem" and strip_conv(fz[0].args[0][1]) == A(term, "args") or
                fz[0].args[0][0] == "i" and fz[0].args[0][1] == A(term, "args")):
            ctx.bad(f, "an argument is not taken from the call in order", path=p, sub="order")
        used.append(fz[0].args[0])
        if memo not in (None, fz[0].args[2]) or fz[0].args[2] == ("dict", ()) or made_in(p, fz[0].args[2], a, b):
            ctx.bad(f, "one variable in two arguments becomes two", path=p, sub="memo")
        memo = fz[0].args[2]
        z = fz[0].res
        conv = next((n for g, n in CONVERT.items() if is_spec(p, spec, g)), None)
        if is_spec(p, spec, G(M + "asl_str")):
            conv = "asl_str"
        seen.add(conv or "plain")
        if conv == "asl_str":
            ok = is_call(v, "asl_str", (z,)) or v[0] == "call" and v[1] == spec and v[2] == (z,)
        elif conv:
            ok = v[0] == "conv" and v[1] == conv and v[2] == z or v[0] == "call" and v[1] in (G("builtins." + conv), spec) and v[2] == (z,)
        else:
            none = is_spec(p, spec, NONE)
            ok = v == z
            if ok and none is not True:
                seen.add("checked")
            if ok and none is not True and not any(
                    pol and (pr[0] == "isinst" and pr[1] == z and show(spec) in pr[2] or pr[0] == "truth" and mentions(pr, z) and mentions(pr, spec)) for pr, pol, _ in p.facts()):
                ctx.bad(f, "an argument of another type is passed on", path=p, sub="type")
        if not ok:
            ctx.bad(f, "an argument is not converted to the declared type", path=p, sub="convert")


@rule("action-wrappers", "P22 P03", floor=30)
def action_wrappers(ctx):
    """A Python function becomes an action with as many arguments as its specifications ask for (one more for the
    result of a function); it is called once with environment, agent and the frozen, converted arguments in order; a
    function's result is unified with the last argument, a predicate's decides success, a procedure's is ignored."""
    for name, extra in (("add_function", 1), ("add_predicate", 0), ("add_procedure", 0)):
        f = need_method(ctx, AC, name)
        default_none(ctx, f, "f")
        direct = seen_deco = False
        seen = set()
        runs = []
        for p in ctx.paths(f):
            if p.kind == "raise":
                continue
            given = not any(pr[0] in ("is", "eq") and pol and set(pr[1:]) == {NONE, FN} for pr, pol, _ in p.facts())
            single = p.fact(("isinst", SPECS, ("builtins.list", "builtins.tuple")))
            for _, l in loops_over(p, spec_source):
                if single is not (strip_conv(l["src"]) == SPECS):
                    ctx.bad(f, "a single specification is not taken as one", path=p, sub="single")
            if p.kind == "return" and p.val[0] == "func":
                seen_deco = True
                if given:
                    ctx.bad(f, "a given implementation is not registered", path=p, sub="register")
                g = p.flow.info[p.val[2]][0]
                for q in ctx.closure(p, p.val):
                    runs.append((q, param(g.params[0])))
                    for _, l in loops_over(q, spec_source):
                        if single is not (strip_conv(l["src"]) == SPECS):
                            ctx.bad(f, "a single specification is not taken as one", path=q, sub="single")
            elif not given:
                ctx.bad(f, "is no decorator", path=p, sub="register")
            else:
                runs.append((p, FN))
                direct = True
        if not direct or not seen_deco:
            ctx.bad(f, "does not register, or is no decorator", sub="register")
        done = set()
        for p, fn in runs:
            if p.kind != "return":
                continue
            ctx.ob()
            adds = [c for c in p.calls_to("add") if c.recv == SELF]
            if len(adds) != 1 or len(adds[0].args) < 3 or adds[0].args[0] != FUNCTOR:
                ctx.bad(f, "does not register exactly one action under the name", path=p, sub="register")
                continue
            if p.val[0] == "call" and p.val != adds[0].res or p.val == NONE:
                ctx.bad(f, "the decorated name is lost", path=p, sub="result")
            w = adds[0].args[2]
            check_arity(ctx, f, p, adds[0].args[1], extra, "arity")
            if w[0] != "func":
                ctx.bad(f, "registers no implementation", path=p, sub="register")
                continue
            key = (p.flow.info[w[2]][0].qual, p.events and tuple(x for x in (p.fact(("isinst", SPECS, ("builtins.list", "builtins.tuple"))),)))
            if key in done:
                continue
            done.add(key)
            wrapper(ctx, f, name, ctx.closure(p, w), fn, seen)
        for k in ("env", "agent", "plain", "int", "float", "asl_str", "tuple", "checked"):
            if k not in seen:
                ctx.bad(f, "specification %s is not supported" % k, sub="specs")


def wrapper(ctx, f, kind, paths, fn, seen):
    term = param("term")
    ok_yield = no_yield = False
    for p in paths:
        if p.kind == "raise":
            if not aslerr(p.val) and p.val[0] != "exc":
                ctx.bad(f, "a wrong argument ends in an internal error", path=p, sub="error")
            continue
        if p.kind != "return":
            continue
        ctx.ob()
        calls = [c for c in p.calls if c.ev[1] == fn]
        if len(calls) != 1:
            ctx.bad(f, "the Python function is not called exactly once", path=p, sub="call")
            continue
        c = calls[0]
        if not (len(c.args) == 1 and c.args[0][0] == "star"):
            ctx.bad(f, "the Python function does not get the converted arguments", path=p, sub="call")
            continue
        check_arguments(ctx, f, p, c.args[0][1], c, seen)
        ys = [y for y in p.yields()]
        if kind == "add_function":
            us = [u for u in p.calls_to("unify", "unify_annotated") if c.res in u.args]
            if len(us) != 1 or set(us[0].args[:2]) != {("i", A(term, "args"), const(-1)), c.res} or \
                    us[0].args[2:4] != (A(INTENTION, "scope"), A(INTENTION, "stack")):
                ctx.bad(f, "the result is not unified with the last argument", path=p, sub="result")
                continue
            t = hit(p, us[0])
            if t is None and us[0].name == "unify_annotated":
                t = bool(ys)
        elif kind == "add_predicate":
            t = p.fact(("truth", c.res))
        else:
            t = True
        if t is None or len(ys) != (1 if t else 0):
            ctx.bad(f, "success does not follow the result", path=p, sub="success")
        if ys and ys[0][0] < c.i:
            ctx.bad(f, "succeeds before the function is called", path=p, sub="success")
        ok_yield |= bool(ys)
        no_yield |= not ys
    if not ok_yield:
        ctx.bad(f, "never succeeds", sub="success")
    if not no_yield and kind != "add_procedure":
        ctx.bad(f, "never fails", sub="success")


@rule("action-tables", "P22", floor=2)
def action_tables(ctx):
    """A new table is empty and extends exactly the given library."""
    f = need_method(ctx, AC, "__init__")
    for p in ctx.paths(f):
        ctx.ob()
        st = {e[2]: e[3] for e in p.events if e[0] == "setattr" and e[1] == SELF}
        if st.get("parent") != param("parent"):
            ctx.bad(f, "the library to extend is lost", path=p, sub="parent")
        a, v = st.get("actions", NONE), st.get("variadic_actions", NONE)
        if a[0] != "new" or v[0] != "new" or a == v:
            ctx.bad(f, "tables are shared or not there", path=p, sub="tables")
    # the standard library and the extended one
    for mod, par in (("stdlib", None), ("ext_stdlib", G(M + "stdlib.actions"))):
        m = ctx.prog.modules.get(M + mod)
        if m is None or "actions" not in m.assigns:
            continue
        ctx.ob()
        import ast
        n = m.assigns["actions"]
        ok = len(n) == 1 and isinstance(n[0], ast.Call) and ctx.prog.resolve_expr(m, n[0].func) == AC
        args = [ctx.prog.resolve_expr(m, x) for x in n[0].args + [k.value for k in n[0].keywords]] if ok else []
        want = [] if par is None else [par[1]]
        if not ok or args != want:
            ctx.bad(M + mod + ".actions", "the table of the library is not set up over the library it extends", sub="library")
