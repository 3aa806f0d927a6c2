I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; P = "agentspeak/parser.py"; X = "agentspeak/lexer.py"; U = "agentspeak/util.py"
plants = [
 dict(id="lookup-variadic", property="P22", edits=[(I, """        if group in self.actions:
            return self.actions[group]
        elif functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif self.parent:
            return self.parent.lookup(functor, arity)
""", """        if functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif group in self.actions:
            return self.actions[group]
        elif self.parent:
            return self.parent.lookup(functor, arity)
""")], needs="an action registered both for any number of arguments and for a certain one",
  breaks="the action for any number of arguments hides the one for the given number",
  demo="""
acts = agentspeak.Actions()
@acts.add(".x")
def anyhow(agent, term, intention):
    yield
@acts.add(".x", 1)
def one(agent, term, intention):
    yield
expect(acts.lookup(".x", 1) is one, True)
expect(acts.lookup(".x", 2) is anyhow, True)
"""),
 dict(id="while-without-place", property="P23", edits=[(R, "        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)\n", "        test_instr = self.add_instr(next_or_fail)\n")],
  needs="the condition of a while loop raises an error",
  breaks="the error of a while condition is reported without its place",
  demo="""
import logging
seen = []
class H(logging.Handler):
    def emit(self, record):
        seen.append(getattr(record, "loc", None))
logging.getLogger("agentspeak.runtime").addHandler(H())
run('!s. +!s <- while (X + 1 < 3) { .print(1) }.')
expect([bool(l) for l in seen], [True])
"""),
 dict(id="keyword-underscore", property="P16", edits=[(X, "($|[^a-zA-Z0-9_]))((", "($|[^a-zA-Z0-9]))((")],
  needs="a name that begins with a keyword and an underscore", breaks="the name is split into the keyword and a variable",
  demo="""
toks = [t.lexeme for t in agentspeak.lexer.tokenize(agentspeak.StringSource("d", "end_of(div_by)"), agentspeak.Log(agentspeak.get_logger("demo")))]
expect(toks, ["end_of", "(", "div_by", ")"])
"""),
 dict(id="power-sign", property="P17", edits=[(P, """        tok = next(tokens)
        tok, op.right = parse_factor(tok, tokens, log)
        expr = op

    return tok, expr


def parse_factor""", """        tok = next(tokens)
        if tok.token.unary_op:
            tok, op.right = parse_product(tok, tokens, log)
        else:
            tok, op.right = parse_atom(tok, tokens, log)
        expr = op

    return tok, expr


def parse_factor""")],
  needs="a power with a signed exponent that is followed by a multiplication", breaks="the rest of the product becomes part of the exponent",
  demo="""
expect(str(parse("p :- X = Y ** -Z * 3.")), str(parse("p :- X = (Y ** -Z) * 3.")))
"""),
 dict(id="else-unchecked", property="P19", edits=[(P, "        ast_if_then_else.else_body = ast_if_then_else.else_body.accept(self) if ast_if_then_else.else_body else None\n",
   "        ast_if_then_else.else_body = ast_if_then_else.else_body or None\n")],
  needs="an error in an else branch that only the check of the finished program finds", breaks="else branches are not checked",
  demo="""
try:
    parse("+!s <- if (a) { b } else { .print(1 + true) }.")
    sys.exit(1)
except agentspeak.AggregatedError:
    pass
"""),
 dict(id="include-forgets", property="P21", edits=[(P, "                        included_agent = parse(include, included_tokens, log, included_files)\n", "                        included_agent = parse(include, included_tokens, log)\n")],
  needs="two files that include each other", breaks="including in a circle is not an error",
  demo="""
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    open(d + "/a.asl", "w").write('{ include("b.asl") }')
    open(d + "/b.asl", "w").write('{ include("a.asl") }')
    sys.setrecursionlimit(400)
    try:
        parse(open(d + "/a.asl").read(), d + "/a.asl")
        sys.exit(1)
    except agentspeak.AggregatedError:
        pass
finally:
    shutil.rmtree(d)
"""),
 dict(id="bool-one-side", property="P24", edits=[(I, "            not isinstance(left, bool) or not isinstance(right, bool)\n", "            not isinstance(left, bool) and not isinstance(right, bool)\n")],
  needs="a logical operator with one operand that is a number", breaks="a value is computed from operands of the wrong type",
  demo="""
expect(run('!s. +!s <- X = 6; Y = (X & true); .print(Y).'), run('!s. +!s <- X = 6; Y = (X & X); .print(Y).'))
"""),
 dict(id="parse-hook-first", property="P26", edits=[(P, """    agent = parse(source.name, tokens, log)

    log.throw()

    hook(agent)
""", """    agent = parse(source.name, tokens, log)

    hook(agent)
""")], needs="a source with an error the parser goes on from", breaks="the parser as a tool reports success on a faulty source",
  demo="""
import subprocess
p = subprocess.run([sys.executable, "-m", "agentspeak.parser"], input="p(1). ). q.", capture_output=True, text=True)
expect(p.returncode != 0, True)
"""),
 dict(id="hash-order", property="P28", edits=[(I, "        return hash((self.functor, self.args, self.annots))\n", "        return hash((self.functor, self.args, tuple(self.annots)))\n")],
  needs="two equal terms whose annotations were given in another order and collide in the set", breaks="equal terms have different hashes",
  demo="""
L = agentspeak.Literal
import itertools
for names in itertools.product(range(0, 2000), range(2000, 2003)):
    a, b = [("s%d" % n) for n in names]
    p, q = L("p", (), [a, b]), L("p", (), [b, a])
    if p == q and hash(p) != hash(q):
        print(a, b)
        sys.exit(1)
"""),
 dict(id="longer-list", property="P02", edits=[(I, """        if len(left) != len(right):
            return False

        return all(unify(l, r, scope, stack) for l, r in zip(left, right))
    else:
        return left == right
""", """        if len(left) > len(right):
            return False

        return all(unify(l, r, scope, stack) for l, r in zip(left, right))
    else:
        return left == right
""")], needs="a list unified with a longer one that begins like it", breaks="lists of different length unify",
  demo="""
expect(run('!s. +!s <- if ([1, 2] = [1, 2, 3]) { .print(yes) } else { .print(no) }.'), run('!s. +!s <- .print(no).'))
"""),
 dict(id="zip-memo", property="P03", edits=[(I, "            arg = freeze(next(args), scope, memo)\n", "            arg = freeze(next(args), scope, {})\n")],
  needs="one unbound variable in two arguments of a Python function", breaks="one variable becomes two different ones",
  demo="""
acts = agentspeak.Actions(agentspeak.stdlib.actions)
got = []
@acts.add_procedure(".f", (None, None))
def f(a, b):
    got.append(a is b)
run('!s. +!s <- .f(X, X).', acts)
expect(got, [True])
"""),
 dict(id="abolish-annots", property="P05", edits=[(S, "        if agentspeak.unifies_annotated(pattern, old_belief):\n            group.remove(old_belief)\n", "        if agentspeak.unifies(pattern, old_belief):\n            group.remove(old_belief)\n")],
  needs="abolishing with an annotation that not all beliefs have", breaks="beliefs without the annotation are removed as well",
  demo="""
expect(run('p(1)[a]. p(2). !s. +!s <- .abolish(p(_)[a]); .count(p(_), N); .print(N).'), run('!s. +!s <- .print(1).'))
"""),
 dict(id="annot-no-reroll", property="P01", edits=[(I, """                if not found_right:
                    reroll(scope, stack, choicepoint)
                    return
""", """                if not found_right:
                    return
""")], needs="a belief whose arguments match but that lacks an annotation, tried before one that has it", breaks="the bindings of a failed match stay",
  demo="""
expect(run('!s. +!s <- +p(1); +p(2)[a]; +p(3); +p(4); ?p(X)[a]; .print(X).'), run('!s. +!s <- .print(2).'))
"""),
 dict(id="test-belief-first", property="P06", edits=[(R, """        # If the goal is an achievement and the trigger is an addition, then the agent will add the goal to his list of intentions
        applicable_plans""", """        if goal_type == agentspeak.GoalType.test and self.test_belief(term, calling_intention):
            return True

        # If the goal is an achievement and the trigger is an addition, then the agent will add the goal to his list of intentions
        applicable_plans""")], needs="a test goal for which there is both a plan and a belief", breaks="the plan for a test goal is not run when a belief matches",
  demo="""
expect(run('p(1). !s. +!s <- ?p(X); .print(X). +?p(2).'), run('!s. +!s <- .print(2).'))
"""),
 dict(id="replace-order", property="P13", edits=[(R, """            removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
            self.add_instr(functools.partial(remove_belief, removal_term),
                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])

            term = ast_formula.term.accept(BuildTermVisitor(self.variables))
            self.add_instr(functools.partial(add_belief, term),
                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
""", """            term = ast_formula.term.accept(BuildTermVisitor(self.variables))
            self.add_instr(functools.partial(add_belief, term),
                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])

            removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
            self.add_instr(functools.partial(remove_belief, removal_term),
                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
""")], needs="replacing a belief with a variable for which there is no earlier one", breaks="the new belief is removed again",
  demo="""
expect(run('!s. +!s <- X = 1; -+p(X); .count(p(_), N); .print(N).'), run('!s. +!s <- .print(1).'))
"""),
 dict(id="list-mixed", property="P15", edits=[(P, """            if len(ast_list.terms) > 1:
                raise log.error("do not mix ',' and '|' in list notation",
                                loc=tok.loc, extra_locs=[ast_list.loc])
""", """            if len(ast_list.terms) > 1:
                log.warning("do not mix ',' and '|' in list notation",
                            loc=tok.loc, extra_locs=[ast_list.loc])
""")], needs="a list with several heads and a tail", breaks="all heads but the last are dropped silently",
  demo="""
try:
    parse("p([a, b | [c]]).")
    sys.exit(1)
except agentspeak.AggregatedError:
    pass
"""),
 dict(id="log-warn", property="P25", edits=[(R, """            log.warning("agent %r does not know the plan '%s'", self.name, term.args[0])""", """            log.warn("agent %r does not know the plan '%s'", self.name, term.args[0])""")],
  needs="asking an agent for a plan it does not have", breaks="the agent ends in an internal error",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", ''), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(b, askHow, "+!nothing").'), agentspeak.stdlib.actions)
env.run()
"""),
 dict(id="substring-step", property="P27", edits=[(S, "        pos = haystack.find(needle, pos + 1)\n", "        pos = haystack.find(needle, pos + (len(needle) or 1))\n")],
  needs="a text that occurs at overlapping places", breaks="overlapping places are left out",
  demo="""
expect(run('!s. +!s <- .count(.substring("aa", "aaa", _), N); for (.substring("aa", "aaa", P)) { .print(P) }.')[-1:], run('!s. +!s <- .print(1).'))
"""),
 dict(id="tell-first", property="P11", edits=[(R, """        plan.ast_plan = ast_plan

        self.add_plan(plan)

    def _call_ask_how""", """        plan.ast_plan = ast_plan

        self.plans[(plan.trigger, plan.goal_type, plan.head.functor, len(plan.head.args))].insert(0, plan)

    def _call_ask_how""")], needs="a plan told to an agent that already has one for the goal", breaks="a told plan goes before the plans the agent has",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", '+!g <- .print(own).'), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(b, tellHow, "+!g <- .print(told)."); .send(b, achieve, g).'), agentspeak.stdlib.actions)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    env.run()
expect("own" in out.getvalue(), True)
"""),
 dict(id="annots-replaced", property="P10", edits=[(I, "        return Literal(self.functor, self.args, self.annots | frozenset([annot]))\n", """        others = (a for a in self.annots if getattr(a, "functor", None) == annot.functor)
        return Literal(self.functor, self.args, frozenset([annot]).union(others))
""")], needs="a message with annotations of its own", breaks="the annotations of the content are lost on the way",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", ''), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(b, tell, p[sure]).'), agentspeak.stdlib.actions)
env.run()
expect(sorted(str(x) for l in b.beliefs[("p", 0)] for x in l.annots), ["source(a)", "sure"])
"""),
 dict(id="belief-merge", property="P04", edits=[(R, "        self.beliefs[(term.functor, len(term.args))].add(term)\n", """        group = self.beliefs[(term.functor, len(term.args))]
        for belief in list(group):
            if belief.args == term.args and belief.annots < term.annots:
                # The new belief says all that the old one said.
                group.remove(belief)
        group.add(term)
""")], needs="a belief that is believed again with more annotations", breaks="a belief disappears although nobody removed it",
  demo="""
expect(run('p(1). !s. +!s <- +p(1)[a]; .count(p(_), N); .print(N).'), run('!s. +!s <- .print(2).'))
"""),
 dict(id="timeout-with-event", property="P09", edits=[(R, "        return self.until is not None and self.until < env.time()\n", "        return self.event is None and self.until is not None and self.until < env.time()\n")],
  needs="waiting for an event with a timeout when the event does not come", breaks="the timeout of a wait for an event never passes",
  demo="""
class Env:
    def time(self): return 10
w = agentspeak.runtime.Waiter(event=object(), until=5)
expect(w.poll(Env()), True)
"""),
 dict(id="shared-plans", property="P12", edits=[(R, """            for plans in prototype_agent.plans.values():
                for plan in plans:
                    agent.add_plan(plan)
""", """            agent.plans.update(prototype_agent.plans)
""")], needs="several agents built together, one of which is told a plan", breaks="a plan told to one agent is known to all built with it",
  demo="""
env = agentspeak.runtime.Environment()
bs = env.build_agents(agentspeak.StringSource("b.asl", '+!g <- .print(own).'), 2, agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(b, tellHow, "+!g : false <- .print(told).").'), agentspeak.stdlib.actions)
env.run()
expect([sum(len(p) for p in b.plans.values()) for b in bs], [2, 1])
"""),
 dict(id="shallow-rule", property="P14", edits=[(R, "            rule = copy.deepcopy(rule)\n", "            rule = copy.copy(rule)\n")],
  needs="a rule that uses itself", breaks="the variables of a rule are shared by its uses", demo="""
expect(run('d(0). d(1). e(a, b). e(b, c). c(X, Y) :- e(X, Y). c(X, Y) :- e(X, Z) & c(Z, Y). !s. +!s <- .count(c(a, _), N); .print(N).'), run('!s. +!s <- .print(2).'))
"""),
 dict(id="step-again", property="P08", edits=[(R, """            break
        else:
            return False

        # Ignore""", """            break
        else:
            return any(intention_stack for intention_stack in self.intentions if len(intention_stack) > 1)

        # Ignore""")], needs="an intention that waits inside a plan called from another one", breaks="a step reports work although every intention waits",
  demo="""
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- !w. +!w <- .wait("+x").'), agentspeak.stdlib.actions)
for _ in range(50):
    more = a.step()
expect(more, False)
"""),
]
