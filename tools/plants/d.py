I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; P = "agentspeak/parser.py"; X = "agentspeak/lexer.py"; U = "agentspeak/util.py"
BAD = """
try:
    parse(%r)
    sys.exit(1)
except agentspeak.AggregatedError:
    pass
"""
plants = [
 dict(id="bool-one-side", property="P24", edits=[(I, "            not isinstance(left, bool) or not isinstance(right, bool)\n", "            not isinstance(left, bool) and not isinstance(right, bool)\n")],
  needs="a logical operator with one operand that is no boolean but of a type Python can combine", breaks="a value is computed from operands of the wrong type",
  demo="""
try:
    agentspeak.evaluate(agentspeak.BinaryExpr(agentspeak.BinaryOp.op_and.value, 6, True), {})
    sys.exit(1)
except agentspeak.AslError:
    pass
"""),
 dict(id="equal-shortcut", property="P02", edits=[(I, """    if hasattr(left, "unify"):
        return left.unify(right, scope, stack)
""", """    if left is right or (isinstance(left, tuple) and left == right):
        return True
    if hasattr(left, "unify"):
        return left.unify(right, scope, stack)
""")], needs="two lists that differ only in a boolean and the number it equals in Python", breaks="a boolean equals a number inside a list",
  demo="""
expect(agentspeak.unifies((1, 2), (True, 2)), False)
"""),
 dict(id="deadline-no-event", property="P09", edits=[(R, "        deadlines = [waiter.until for waiter in self.waiters() if waiter.until is not None]\n", "        deadlines = [waiter.until for waiter in self.waiters() if waiter.until and not waiter.event]\n")],
  needs="an environment in which the only thing left is a wait for an event with a timeout", breaks="running ends although a deadline is still to come",
  demo="""
expect(run('!s. +!s <- .wait("+x", 30); .print(done).'), run('!s. +!s <- .print(done).'))
"""),
 dict(id="ask-how-first", property="P11", edits=[(R, """                if differents.head.functor == functor:
                    plans_wanted[(""", """                if differents.head.functor == functor and differents.context is not None:
                    plans_wanted[(""")], needs="nothing", breaks="nothing", demo="sys.exit(0)\n"),
 dict(id="clone-beliefs", property="P12", edits=[(R, """            for ast_belief in ast_agent.beliefs:
                belief = ast_belief.accept(BuildTermVisitor({}))
                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
                           belief, Intention(), delayed=True)

            for ast_goal in ast_agent.goals:
                term""", """            for group, beliefs in prototype_agent.beliefs.items():
                agent.beliefs[group] |= beliefs

            for ast_goal in ast_agent.goals:
                term""")], needs="several agents built together from a source with a plan for one of its initial beliefs", breaks="the copies get their beliefs without the events",
  demo="""
out = io.StringIO()
with contextlib.redirect_stdout(out):
    env = agentspeak.runtime.Environment()
    env.build_agents(agentspeak.StringSource("b.asl", 'p(1). +p(X) <- .print(got, X).'), 3, agentspeak.stdlib.actions)
    env.run()
expect(out.getvalue().count("got"), 3)
"""),
 dict(id="or-cut", property="P14", edits=[(R, """        for _ in self.left.execute(agent, intention):
            yield

        for _ in self.right.execute(agent, intention):
            yield

    def __str__(self):
        return "(%s | %s)" % (self.left, self.right)""", """        found = 0
        for _ in self.left.execute(agent, intention):
            found += 1
            yield

        if found and self.left is self.right:
            return

        for _ in self.right.execute(agent, intention):
            if found and isinstance(self.right, TrueQuery):
                # Nothing new.
                continue
            yield

    def __str__(self):
        return "(%s | %s)" % (self.left, self.right)""")], needs="a disjunction with true on its right side whose solutions are counted", breaks="a solution of the right side is left out",
  demo="""
expect(run('p(1). q :- p(_) | true. !s. +!s <- .count(q, N); .print(N).'), run('!s. +!s <- .print(2).'))
"""),
 dict(id="stray-dot", property="P15", edits=[(P, """        else:
            log.error("unexpected token: '%s'", tok.lexeme, loc=tok.loc)

""", """        elif tok.lexeme == ".":
            log.info("empty statement", loc=tok.loc)
        else:
            log.error("unexpected token: '%s'", tok.lexeme, loc=tok.loc)

""")], needs="two full stops after one another", breaks="a source that the grammar does not allow is accepted", demo=BAD % "p(1).. q(2)."),
 dict(id="illegal-rest", property="P16", edits=[(X, """                log.error("illegal character '%s'", line[startcol], loc=SourceLocation(sourcefile.name, lineno + firstline, startcol, startcol, line))
                startcol += 1
""", """                if startcol == 0 or line[startcol - 1] != line[startcol]:
                    log.error("illegal character '%s'", line[startcol], loc=SourceLocation(sourcefile.name, lineno + firstline, startcol, startcol, line))
                startcol += 1
""")], needs="an illegal character after the same character, the first of which belongs to a token", breaks="a character is dropped without a report",
  demo="""
log = agentspeak.Log(agentspeak.get_logger("demo"))
src = 'p("a"") .'
toks = [t.lexeme for t in agentspeak.lexer.tokenize(agentspeak.StringSource("d", src), log)]
expect(log.num_errors > 0, True)
"""),
 dict(id="not-weak", property="P17", edits=[(P, """        op.loc = tok.loc
        tok = next(tokens)
        tok, op.operand = parse_not_expr(tok, tokens, log)
        return tok, op
""", """        op.loc = tok.loc
        tok = next(tokens)
        if tok.lexeme == "not":
            # A double negation is none.
            tok = next(tokens)
            return parse_not_expr(tok, tokens, log)
        tok, op.operand = parse_not_expr(tok, tokens, log)
        return tok, op
""")], needs="a doubly negated query with a variable", breaks="a double negation, which binds nothing, becomes the query itself", demo="""
expect(str(parse("p :- not not q(X).")).count("not"), 2)
"""),
 dict(id="fold-zero", property="P18", edits=[(P, """            else:
                ast_binary_op.left = left
                ast_binary_op.right = right
        else:
            self.log.error("unexpected operator '%s' in numeric context",
                           ast_binary_op.operator.value.lexeme,
                           loc=ast_binary_op.loc,
                           extra_locs=[ast_binary_op.left.loc""", """            elif (isinstance(left, AstConst) and left.value == 0 and ast_binary_op.operator == BinaryOp.op_mul):
                return left
            else:
                ast_binary_op.left = left
                ast_binary_op.right = right
        else:
            self.log.error("unexpected operator '%s' in numeric context",
                           ast_binary_op.operator.value.lexeme,
                           loc=ast_binary_op.loc,
                           extra_locs=[ast_binary_op.left.loc""")], needs="a product of zero and a variable that is no number", breaks="an expression that is an error at run time is folded to zero",
  demo="""
expect(run('!s. +!s <- X = a; Y = 0 * X; .print(Y).'), run('!s. +!s <- X = a; Y = 1 * X; .print(Y).'))
"""),
 dict(id="findop-annots", property="P19", edits=[(P, """            for op in term.accept(self):
                yield op

        for annotation in ast_literal.annotations:
            for op in annotation.accept(self):
                yield op
""", """            for op in term.accept(self):
                yield op

        for annotation in ast_literal.annotations[1:]:
            for op in annotation.accept(self):
                yield op
""")], needs="an expression in the first annotation of a belief or plan head", breaks="the check does not see the first annotation", demo=BAD % "+!p[a(X + 1)] <- true."),
 dict(id="include-cwd", property="P21", edits=[(P, "                include = os.path.normpath(os.path.join(os.path.dirname(filename), include))\n", """                if not os.path.isfile(include):
                    include = os.path.join(os.path.dirname(filename), include)
                include = os.path.normpath(include)
""")], needs="a file of the included name in the directory the program is run in", breaks="a file in the working directory is included instead of the one beside the program",
  demo="""
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(d + "/prog")
    open(d + "/prog/a.asl", "w").write('{ include("b.asl") }')
    open(d + "/prog/b.asl", "w").write('right.')
    open(d + "/b.asl", "w").write('wrong.')
    os.chdir(d)
    expect([str(b) for b in parse(open(d + "/prog/a.asl").read(), d + "/prog/a.asl").beliefs], ["right"])
finally:
    shutil.rmtree(d)
"""),
 dict(id="lookup-cache", property="P22", edits=[(I, """        group = (functor, arity)
        if group in self.actions:
            return self.actions[group]
        elif functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif self.parent:
            return self.parent.lookup(functor, arity)
""", """        group = (functor, arity)
        if group in self.actions:
            return self.actions[group]
        elif functor in self.variadic_actions:
            return self.variadic_actions[functor]
        elif self.parent:
            # Found faster the next time.
            self.actions[group] = self.parent.lookup(functor, arity)
            return self.actions[group]
""")], needs="a library that extends another one, in which an action is looked up before it is redefined", breaks="an action that was once looked up in the extended library cannot be defined any more",
  demo="""
base = agentspeak.Actions()
@base.add(".x", 1)
def old(agent, term, intention):
    yield
acts = agentspeak.Actions(base)
acts.lookup(".x", 1)
@acts.add(".x", 1)
def new(agent, term, intention):
    yield
expect(acts.lookup(".x", 1) is new, True)
"""),
 dict(id="number-bool", property="P24", edits=[(I, "    return isinstance(term, numbers.Number) and not isinstance(term, bool)\n", "    return isinstance(term, numbers.Number)\n")],
  needs="arithmetic on a boolean", breaks="true counts as a number", demo="""
expect(run('!s. +!s <- X = true; Y = X + 1; .print(Y).')[-1:], ["AggregatedError"])
"""),
 dict(id="eq-by-hash", property="P28", edits=[(I, """        return (
            not is_literal(other)
            or self.functor != other.functor
            or self.args != other.args
            or self.annots != other.annots
        )
""", """        return not is_literal(other) or self.functor != other.functor or hash(self) != hash(other)
""")], needs="two numbers with the same hash, such as -1 and -2", breaks="different terms are equal", demo="""
expect(agentspeak.Literal("p", (-1,)) == agentspeak.Literal("p", (-2,)), False)
"""),
 dict(id="rotate", property="P08", edits=[(R, """        # Ignore if the intentiosn stack is empty
        if not intention_stack:
            return False
""", """        # Take turns.
        if len(self.intentions) > 2:
            self.intentions.rotate(-1)
""")], needs="three intentions at once", breaks="another intention than the first runs next", demo="""
expect(run('!a. !b. !c. +!a <- .print(1); .print(2). +!b <- .print(3); .print(4). +!c <- .print(5); .print(6).'),
       run('!a. +!a <- .print(1); .print(2); .print(3); .print(4); .print(5); .print(6).'))
"""),
 dict(id="count-distinct", property="P27", edits=[(S, """    for _ in query.execute(agent, intention):
        result.append(agentspeak.freeze(term.args[0], intention.scope, {}))
""", """    for _ in query.execute(agent, intention):
        solution = agentspeak.freeze(term.args[0], intention.scope, {})
        if not (result and result[-1] == solution):
            result.append(solution)
""")], needs="a query with the same solution twice in a row", breaks="equal results are collected once", demo="""
expect(run('p(1, a). p(1, b). !s. +!s <- .findall(X, p(X, _), L); .print(L).'), run('!s. +!s <- .print([1, 1]).'))
"""),
 dict(id="send-self", property="P10", edits=[(S, """    for receiver in receiving_agents:
        receiver.call(trigger, goal_type, tagged_message, agentspeak.runtime.Intention())
""", """    for receiver in receiving_agents:
        if receiver is agent and len(receiving_agents) > 1:
            continue
        receiver.call(trigger, goal_type, tagged_message, agentspeak.runtime.Intention())
""")], needs="a message to a list of agents with the sender among them", breaks="the sender does not get a message it names itself in", demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", ''), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send([a, b], tell, p).'), agentspeak.stdlib.actions)
env.run()
expect([len(x.beliefs[("p", 0)]) for x in (a, b)], [1, 1])
"""),
 dict(id="fail-loc", property="P23", edits=[(R, """                intention.instr = instr.failure
                if not intention.instr:
                    raise AslError("plan failure")
        except AslError as err:
            log = agentspeak.Log(LOGGER)
            raise log.error("%s", err, loc=instr.loc, extra_locs=instr.extra_locs)
""", """                intention.instr = instr = instr.failure
                if not intention.instr:
                    raise AslError("plan failure")
        except AslError as err:
            log = agentspeak.Log(LOGGER)
            raise log.error("%s", err, loc=instr and instr.loc, extra_locs=instr.extra_locs if instr else ())
""")], needs="a failing formula", breaks="a plan failure is reported without its place", demo="""
import logging
seen = []
class H(logging.Handler):
    def emit(self, record):
        seen.append(getattr(record, "loc", None))
logging.getLogger("agentspeak.runtime").addHandler(H())
run('!s. +!s <- .fail.')
expect([bool(l) for l in seen], [True])
"""),
 dict(id="reroll-wild", property="P01", edits=[(I, """    while stack:
        t = stack.pop()
        if t is choicepoint:
            return
        else:
            # Ignores other choicepoints.
            scope.pop(t, None)
""", """    while stack:
        t = stack.pop()
        if t is choicepoint:
            return
        elif not isinstance(t, Var):
            # Another choicepoint: everything below it is older.
            continue
        elif isinstance(scope.get(t), Var):
            # Names two variables, no value.
            continue
        else:
            scope.pop(t, None)
""")], needs="a variable that was bound to another variable by an alternative that fails", breaks="two variables stay bound to each other", demo="""
V, W = agentspeak.Var(), agentspeak.Var()
import collections
scope, stack, cp = {}, collections.deque(), object()
stack.append(cp)
agentspeak.unify(V, W, scope, stack)
agentspeak.reroll(scope, stack, cp)
expect(scope, {})
"""),
 dict(id="context-once", property="P06", edits=[(R, """                for _ in plan.context.execute(self, intention):
                    intention.head_term = frozen
                    intention.instr = plan.body
                    intention.calling_term = term

                    if not""", """                for _ in plan.context.execute(self, intention):
                    intention.head_term = frozen
                    intention.instr = plan.body
                    intention.calling_term = term
                    if plan.body.success is None and plan is not applicable_plans[-1]:
                        # Nothing to do.
                        continue

                    if not""")], needs="an applicable plan without a body that is followed by another plan", breaks="a plan with an empty body is passed over", demo="""
expect(run('!g(1). !h. +!g(1). +!g(X) <- .print(second). +!h <- .print(fin).'), run('!h. +!h <- .print(fin).'))
"""),
 dict(id="resume-later", property="P07", edits=[(R, """                    if not delayed and self.intentions:
                        for intention_stack in self.intentions:
                            if intention_stack and intention_stack[-1] == calling_intention:
                                intention_stack.append(intention)
                                return True
""", """                    if not delayed and self.intentions and goal_type != agentspeak.GoalType.belief:
                        for intention_stack in self.intentions:
                            if intention_stack and intention_stack[-1] == calling_intention:
                                intention_stack.append(intention)
                                return True
""")], needs="a belief event inside a plan that goes on with something that depends on the event's plan", breaks="the plan for a belief event runs beside the plan that raised it", demo="""
expect(run('!s. +!s <- +p; .print(2). +p <- .print(1).'), run('!s. +!s <- .print(1); .print(2).'))
"""),
 dict(id="remove-no-event", property="P05", edits=[(R, """                found = self.remove_belief(term, calling_intention)
                if not found:
                    return True
""", """                found = self.remove_belief(term, calling_intention)
                if not found:
                    return not agentspeak.is_ground(term, calling_intention.scope) or True
                while self.remove_belief(term, calling_intention):
                    pass
""")], needs="removing a belief by a pattern without variables that matches several, which differ in their annotations", breaks="several beliefs are removed", demo="""
expect(run('p(1)[a]. p(1)[b]. !s. +!s <- -p(1); .count(p(_), N); .print(N).'), run('!s. +!s <- .print(1).'))
"""),
 dict(id="while-twice", property="P13", edits=[(R, """        ast_while.body.accept(self)
        while_tail = self.add_instr(pop_choicepoint)
        while_tail.success = while_head
""", """        ast_while.body.accept(self)
        if ast_while.body.formulas and len(ast_while.body.formulas) > 1:
            while_tail = self.add_instr(pop_choicepoint)
        else:
            while_tail = self.tail
        while_tail.success = while_head
""")], needs="a while loop with one formula that binds a variable of the condition", breaks="the bindings of one round are there in the next", demo="""
expect(run('p(1). p(2). !s. +!s <- while (p(X)) { -p(X) }; .print(fin).'), run('!s. +!s <- .print(fin).'))
"""),
]
plants = [p for p in plants if p["id"] != "ask-how-first"]
