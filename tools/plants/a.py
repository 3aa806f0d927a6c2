I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"
plants = [
 dict(id="reroll-outer", property="P01", edits=[(R, """        success = any(True for _ in self.query.execute(agent, intention))

        agentspeak.reroll(intention.scope, intention.stack, choicepoint)

        if not success:
            yield
""", """        success = any(True for _ in self.query.execute(agent, intention))

        if not success:
            agentspeak.reroll(intention.scope, intention.stack, choicepoint)
            yield
""")],
  needs="a negated query that binds a variable and succeeds inside a disjunction that then tries its other side",
  breaks="the bindings a negated query made stay when the negation fails, so the next alternative sees them",
  demo="""
expect(run('p(1). q(2). !s. +!s : (not p(X) | q(X)) <- .print(X). +!s <- .print(none).'), run('p(1). q(2). !s. +!s : q(X) <- .print(X).'))
"""),
 dict(id="freeze-memo", property="P03", edits=[(I, """            (freeze(arg, scope, memo) for arg in self.args),
            (freeze(annot, scope, memo) for annot in self.annots),
""", """            (freeze(arg, scope, memo) for arg in self.args),
            (freeze(annot, scope, dict(memo)) for annot in self.annots),
""")],
  needs="a term in which two annotations share a variable that no argument mentions",
  breaks="a variable shared by two annotations becomes two different variables when the term is frozen",
  demo="""
V = agentspeak.Var()
l = agentspeak.Literal("f", (), (agentspeak.Literal("a", (V,)), agentspeak.Literal("b", (V,))))
fr = agentspeak.freeze(l, {}, {})
vs = set(a.args[0] for a in fr.annots)
expect(len(vs), 1)
"""),

 dict(id="waiter-goaltype", property="P09", edits=[(R, """            if event.trigger != trigger or event.goal_type != goal_type:
                continue
""", """            if event.trigger != trigger and event.goal_type != goal_type:
                continue
""")],
  needs="an intention waiting for the addition of a belief while a goal of the same name is raised",
  breaks="a waiting intention is woken by an event of another kind",
  demo="""
expect(run('!w. !x. +!w <- .wait("+p(_)"); .print(woken). +!x <- !p(1); .print(done). +!p(_) <- .print(goal).'), run('!x. +!x <- .print(goal); .print(done).'))
"""),
 dict(id="send-partial", property="P10", edits=[(S, """            receiving_agents.append(agent.env.agents[receiver])

    # Illocutionary""", """            receiving_agents.append(agent.env.agents.get(receiver))

    # Illocutionary""")],
  needs="a message to a list of strings in which the first names an agent and a later one does not",
  breaks="the known receivers get the message although one receiver is unknown",
  demo="""
env = agentspeak.runtime.Environment()
b = env.build_agent(agentspeak.StringSource("b.asl", 'q(1).'), agentspeak.stdlib.actions)
a = env.build_agent(agentspeak.StringSource("a.asl", '!s. +!s <- .send(["b", "nobody"], tell, p(1)).'), agentspeak.stdlib.actions)
try:
    env.run()
    sys.exit(1)
except agentspeak.AggregatedError:
    pass
expect(len(b.beliefs[("p", 1)]), 0)
"""),
 dict(id="replace-annots", property="P05", edits=[(R, """        for belief in relevant_beliefs:
            intention.stack.append(choicepoint)
            if agentspeak.unifies_annotated(term, belief, intention.scope, intention.stack):
""", """        for belief in relevant_beliefs:
            intention.stack.append(choicepoint)
            if agentspeak.unify(term, belief, intention.scope, intention.stack):
""")],
  needs="removing a belief with an annotation that no stored belief has",
  breaks="a belief without the annotation that the removal asks for is removed",
  demo="""
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("x.asl", 'p(1)[source(b)]. !s. +!s <- -p(1)[source(c)].'), agentspeak.stdlib.actions)
env.run()
expect(len(a.beliefs[("p", 1)]), 1)
"""),
]
