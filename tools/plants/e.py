I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; P = "agentspeak/parser.py"; L = "agentspeak/lexer.py"; X = "agentspeak/ext_stdlib.py"
plants = [
 dict(id="bind-itself", property="P01", edits=[(I, "        if self is term:\n            return\n\n", "")],
  needs="a free variable unified with itself, then looked at", breaks="looking up the value of the variable never ends",
  demo="""
import signal
signal.alarm(20)
expect(run('!s. +!s <- X = X; X = 1; .print(X).'), ["demo 1"])
"""),
 dict(id="string-utf8", property="P15", edits=[(I, 's[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")', 's[1:-1].encode("utf-8").decode("unicode_escape")')],
  needs="a string literal with a character outside ASCII", breaks="the text of the string is mangled",
  demo="""
expect(agentspeak.parse_string('"gr\\u00fcn \\u2603"'), "gr\\u00fcn \\u2603")
"""),
 dict(id="string-strip", property="P15", edits=[(I, "    return s[1:-1].encode(", "    return s.strip('\"').encode(")],
  needs="a string literal that ends with an escaped quote", breaks="the escaped quote is lost from the text",
  demo=r"""
expect(agentspeak.parse_string('"say \\"hi\\""'), 'say "hi"')
"""),
 dict(id="list-is-tuple", property="P27", edits=[(I, "    return isinstance(term, (tuple, LinkedList))", "    return isinstance(term, tuple)")],
  needs="a list written with head and tail given to an action that asks for its type", breaks="lists with a tail are not taken for lists",
  demo="""
expect(run('!s. +!s <- L = [2,3]; if (.list([1|L])) { .print(yes) } else { .print(no) }.'), ["demo yes"])
"""),
 dict(id="caret-outside", property="P15", edits=[(I, '                if col < len(under_line):\n                    under_line[col] = "^"', '                under_line[col] = "^"')],
  needs="a problem at the very end of a line", breaks="the message is lost because formatting it fails",
  demo="""
import logging
rec = logging.LogRecord("x", logging.ERROR, "f", 1, "broken", (), None)
rec.message = "broken"
rec.loc = agentspeak.SourceLocation("a.asl", 1, 4, 4, "abcd")
expect("broken" in agentspeak.LogFormatter().formatMessage(rec), True)
"""),
 dict(id="reserved-name", property="P12", edits=[(I, '    while functor in KEYWORDS:\n        functor += "_"\n', '')],
  needs="an agent built from a file whose name is a reserved word", breaks="no program can write the name of the agent",
  demo="""
env = agentspeak.runtime.Environment()
a = env.build_agent(agentspeak.StringSource("end.asl", ""), agentspeak.stdlib.actions)
parse("!s. +!s <- .send(%s, tell, x)." % a.name)
"""),
 dict(id="chain-first", property="P17", edits=[(P, "        op.left = rightmost\n        op.operator = tok.token.comp_op", "        op.left = comparisons or rightmost\n        op.operator = tok.token.comp_op")],
  needs="a chain of comparisons", breaks="the second comparison compares the result of the first one",
  demo="""
expect(str(parse("a :- 1 < X < 3.").rules[0].consequence), "((1 < X) & (X < 3))")
"""),
 dict(id="fold-overflow", property="P18", edits=[(P, "                except ArithmeticError as err:", "                except ZeroDivisionError as err:")],
  needs="a constant power too large for a number", breaks="the parser crashes instead of reporting the place",
  demo="""
try:
    parse("a(X) :- X = 10 ** 400.")
    sys.exit(1)
except agentspeak.AggregatedError:
    pass
"""),
 dict(id="exponent-cut", property="P17", edits=[(P, "const.value = float(tok.lexeme)", "const.value = float(tok.lexeme.split('e')[0])")],
  needs="a number written with an exponent", breaks="the exponent is dropped",
  demo="""
expect(parse("a(2e3).").beliefs[0].terms[0].value, 2000)
"""),
 dict(id="replace-any", property="P05", edits=[(R, '''    def visit_binary_op(self, ast_binary_op):
        return agentspeak.Wildcard()
''', '''    def visit_binary_op(self, ast_binary_op):
        return agentspeak.Wildcard()

    def visit_const(self, ast_const):
        return agentspeak.Wildcard()
''')], needs="replacing a belief by one with a constant while others differ in that constant", breaks="a belief that does not match is removed",
  demo="""
expect(sorted(run('p(1). !s. +!s <- -+p(2); .findall(X, p(X), L); .print(L).')), ["demo [1, 2]"])
"""),
 dict(id="drop-waiting", property="P10", edits=[(R, "intention.head_term.functor == term.functor:\n                if", "intention.head_term.functor == term.functor and not intention.waiter:\n                if")],
  needs="a goal that is dropped while it waits", breaks="the goal is not dropped",
  demo="""
env = agentspeak.runtime.Environment()
import io, contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    w = env.build_agent(agentspeak.StringSource("w.asl", "!g. +!g <- .wait(200); .print(late)."), agentspeak.stdlib.actions)
    b = env.build_agent(agentspeak.StringSource("b.asl", "!s. +!s <- .wait(50); .send(w, unachieve, g)."), agentspeak.stdlib.actions)
    env.run()
expect(out.getvalue(), "")
"""),
 dict(id="one-turn-any", property="P08", edits=[(R, '''            for agent in self.agents.values():
                if agent.step():
                    maybe_more_work = True
''', '''            maybe_more_work = any(agent.step() for agent in self.agents.values())
''')], needs="several agents of which the first always has something to do", breaks="the other agents do not run",
  demo="""
env = agentspeak.runtime.Environment()
import io, contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    env.build_agent(agentspeak.StringSource("x.asl", "!s(0). +!s(N) : N < 40 <- !s(N+1). +!s(N) <- .print(end0)."), agentspeak.stdlib.actions)
    env.build_agent(agentspeak.StringSource("y.asl", "!s. +!s <- .print(end1)."), agentspeak.stdlib.actions)
    env.run()
expect(out.getvalue().split(), ["y", "end1", "x", "end0"])
"""),
 dict(id="wait-none", property="P09", edits=[(S, "    if millis is None:\n        until = None", "    if not millis:\n        until = None")],
  needs="waiting for an event with a timeout of zero", breaks="the intention never resumes",
  demo="""
expect(run('!s. +!s <- .wait("+x", 0); .print(done).') , run('!s. +!s <- .wait("+x", 1); .print(done).'))
"""),
 dict(id="share-file", property="P27", edits=[(X, "    if agent in _files:\n        f = _files[agent]\n", "    if _files:\n        f = next(iter(_files.values()))\n")],
  needs="two agents that both write tables", breaks="the rows of one agent go to the file of the other",
  demo="""
import tempfile, os
d = tempfile.mkdtemp()
os.chdir(d)
try:
    env = agentspeak.runtime.Environment()
    for n in ("x", "y"):
        env.build_agent(agentspeak.StringSource(n + ".asl", "!s. +!s <- .csv(%s)." % n), agentspeak.ext_stdlib.actions)
    env.run()
    got = {f: open(f).read() for f in os.listdir(d)}
finally:
    os.chdir("/")
expect(len(got), 2)
"""),
]
