I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; P = "agentspeak/parser.py"; X = "agentspeak/lexer.py"; U = "agentspeak/util.py"
plants = [
 dict(id="outer-plan-returns", property="P07", edits=[(R, "calling_intention = intention_stack[-1]\n", "calling_intention = intention_stack[0]\n")],
  needs="a goal called from a plan that was itself called from a plan, with a result that the caller uses",
  breaks="the results of a goal are given to the outermost plan of the intention instead of the one that called",
  demo="""
expect(run('!a. +!a <- !b(X); .print(X). +!b(Y) <- !c(Z); Y = Z + 1. +!c(1).'), run('!a. +!a <- .print(2).'))
"""),
 dict(id="last-deadline", property="P09", edits=[(R, "time.sleep(max(0, min(deadlines) - self.time()))", "time.sleep(max(0, deadlines[-1] - self.time()))")],
  needs="two agents that wait, of which the one built first is to wait less long",
  breaks="an idle environment sleeps until the deadline of the last agent that waits",
  demo="""
import time
class Env(agentspeak.runtime.Environment):
    now = 0.0
    def time(self):
        return self.now
slept = []
def sleep(s):
    slept.append(s)
    Env.now += s + 0.001
time.sleep = sleep
env = Env()
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .wait(100); .print(a).'), agentspeak.stdlib.actions)
b = env.build_agent(agentspeak.StringSource("b.asl", '!s. +!s <- .wait(5000); .print(b).'), agentspeak.stdlib.actions)
with contextlib.redirect_stdout(io.StringIO()):
    env.run()
expect(slept[0] < 1, True)
"""),
 dict(id="first-waiter", property="P09", edits=[(R, """            if agentspeak.unifies_annotated(event.head, frozen):
                intention.waiter = None
""", """            if agentspeak.unifies_annotated(event.head, frozen):
                intention.waiter = None
                break
""")],
  needs="two intentions of one agent that wait for the same event",
  breaks="an event wakes only the first of the intentions waiting for it",
  demo="""
out = run('!a. !b. !c. +!a <- .wait("+p(X)"); .print(woken). +!b <- .wait("+p(X)"); .print(woken). +!c <- .print(c); +p(1).')
expect(sum('woken' in l for l in out), 2)
"""),
 dict(id="name-by-count", property="P12", edits=[(R, """            name = base_name + str(i)
            i += 1
""", """            name = base_name + str(len(self.agents) + i - 1)
            i += len(self.agents)
""")],
  needs="more than two agents of one name",
  breaks="...",
  demo="expect(1, 1)\n"),
 dict(id="name-collision", property="P12", edits=[(R, """        name = base_name
        i = 1
        while name in self.agents:
            name = base_name + str(i)
            i += 1
        return name
""", """        taken = sum(1 for name in self.agents if name.rstrip("0123456789") == base_name)
        return base_name + str(taken) if taken else base_name
""")],
  needs="sources whose names end in digits, such as a.asl and then a1.asl and a.asl, or a1.asl twice",
  breaks="a new agent gets the name of another one and takes its place",
  demo="""
env = agentspeak.runtime.Environment()
agents = [env.build_agent(agentspeak.StringSource(n + ".asl", ""), agentspeak.stdlib.actions) for n in ("a", "a1", "a", "a1", "a")]
expect(len(set(a.name for a in agents)), 5)
expect(len(env.agents), 5)
"""),
 dict(id="rules-or-beliefs", property="P14", edits=[(R, """        # Query on the belief base.
        for belief in list(agent.beliefs[group]):
            for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                yield

        choicepoint = object()
""", """        # Query on the belief base.
        found = False
        for belief in list(agent.beliefs[group]):
            for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                found = True
                yield
        if found and not term.args:
            # Nothing more to be known.
            return

        choicepoint = object()
""")],
  needs="a proposition that is both believed and derived, with an annotation variable or counted",
  breaks="the solutions that a rule gives are left out when a belief matches",
  demo="""
expect(run('q(1). q(2). p. p :- q(X). !s. +!s <- .count(p, N); .print(N).'), run('!s. +!s <- .print(3).'))
"""),
 dict(id="unthrown-build-log", property="P15", edits=[(R, """        ast_agent = agentspeak.parser.parse(source.name, tokens, log)
        log.throw()

""", """        ast_agent = agentspeak.parser.parse(source.name, tokens, log)

""")],
  needs="an error that the parser records and goes on from",
  breaks="an agent is built from a source with errors",
  demo="""
for text in ("p(1, 2) :- q. +!a : .b = 1 <- x. p(1 & 2).", "!s(true + 1).", "+!s <- X = 1 + true."):
    env = agentspeak.runtime.Environment()
    try:
        env.build_agent(agentspeak.StringSource("a.asl", text), agentspeak.stdlib.actions)
    except agentspeak.AggregatedError:
        continue
    print("accepted", text)
    sys.exit(1)
"""),
 dict(id="told-without-label", property="P11", edits=[(R, """        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
        
        plan.ast_plan = ast_plan

        self.add_plan(plan)
""", """        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, None)
        
        plan.ast_plan = ast_plan

        self.add_plan(plan)
""")],
  needs="a labelled plan that is told and then untold by its label",
  breaks="a plan that was told loses its label and cannot be untold",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", ''), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(b, tellHow, "@l1 +!g <- .print(1)."); .send(b, untellHow, "@l1").'), agentspeak.stdlib.actions)
env.run()
expect([p for ps in b.plans.values() for p in ps], [])
"""),
 dict(id="trigger-without-annots", property="P06", edits=[(R, """            for _ in agentspeak.unify_annotated(
                plan.head, frozen, intention.scope, intention.stack
            ):
                for _ in plan.context.execute(self, intention):
                    intention.head_term = frozen
                    intention.instr = plan.body
                    intention.calling_term = term
""", """            if not plan.head.annots:
                choices = agentspeak.unify_annotated(plan.head, frozen, intention.scope, intention.stack)
            else:
                choices = [None] if agentspeak.unify(plan.head, frozen, intention.scope, intention.stack) else []
            for _ in choices:
                for _ in plan.context.execute(self, intention):
                    intention.head_term = frozen
                    intention.instr = plan.body
                    intention.calling_term = term
""")],
  needs="a plan whose trigger has an annotation that the event lacks",
  breaks="a plan is run for an event without the annotation its trigger asks for",
  demo="""
expect(run('!g[k(1)]. +!g[k(2)] <- .print(two). +!g <- .print(any).'), run('!g. +!g <- .print(any).'))
"""),
 dict(id="lookup-variadic-first", property="P22", edits=[(I, """        try:
            return self.actions[(functor, arity)]
        except KeyError:
            pass

        try:
            return self.variadic_actions[functor]
""", """        try:
            return self.variadic_actions[functor]
        except KeyError:
            pass

        try:
            return self.actions[(functor, arity)]
""")],
  needs="an action registered both for any number of arguments and for a certain one",
  breaks="the action for any number of arguments is used although there is one for the given number",
  demo="""
acts = agentspeak.Actions()
@acts.add(".x")
def anyhow(agent, term, intention):
    yield
@acts.add(".x", 1)
def one(agent, term, intention):
    yield
expect(acts.lookup(".x", 1) is one, True)
expect(acts.lookup(".x", 2) is anyhow, True)
"""),
 dict(id="if-without-else-first", property="P13", edits=[(R, """            self.tail = else_head
            ast_if_then_else.else_body.accept(self)
            self.tail.success = tail
""", """            self.tail = else_head
            else_tail = ast_if_then_else.else_body.formulas[-1].accept(self)
            else_tail.success = tail
""")],
  needs="an else branch of more than one formula",
  breaks="only the last formula of an else branch is executed",
  demo="""
expect(run('!s. +!s <- if (false) { .print(0) } else { .print(1); .print(2) }.'), run('!s. +!s <- .print(1); .print(2).'))
"""),
 dict(id="source-of-first", property="P10", edits=[(S, """    # Broadcast.
    for receiver in receiving_agents:
        receiver.call(trigger, goal_type, tagged_message, agentspeak.runtime.Intention())
""", """    # Broadcast.
    inbox = agentspeak.runtime.Intention()
    for receiver in receiving_agents:
        receiver.call(trigger, goal_type, tagged_message, inbox)
""")],
  needs="an untell message with a variable to two agents that hold different matching beliefs",
  breaks="the bindings one receiver makes when it removes the belief apply to the next receiver",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", 'p(1)[source(a)].'), agentspeak.stdlib.actions)
c = env.build_agent(agentspeak.StringSource("c.asl", 'p(2)[source(a)].'), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send([b, c], untell, p(X)).'), agentspeak.stdlib.actions)
env.run()
expect((len(b.beliefs[("p", 1)]), len(c.beliefs[("p", 1)])), (0, 0))
"""),
]
plants = [p for p in plants if p["id"] != "name-by-count"]
