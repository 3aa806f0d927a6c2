I = "agentspeak/__init__.py"; R = "agentspeak/runtime.py"; S = "agentspeak/stdlib.py"; P = "agentspeak/parser.py"; L = "agentspeak/lexer.py"; X = "agentspeak/ext_stdlib.py"
plants = [
 dict(id="not-noparen", property="P20", edits=[(P, '        return "(%s %s)" % (self.operator.value.lexeme, self.operand)', '        return "%s %s" % (self.operator.value.lexeme, self.operand)')],
  needs="a negation that is an operand of a comparison", breaks="the printed program negates the whole comparison",
  demo="""
a = parse("a(X, Y) :- (not X) == Y.")
b = parse(str(a))
expect(type(b.rules[0].consequence), type(a.rules[0].consequence))
"""),
 dict(id="quote-unescaped", property="P20", edits=[(I, """            term.encode("unicode_escape").decode("utf-8").replace('"', '\\\\"'),""", """            term.encode("unicode_escape").decode("utf-8"),""")],
  needs="a string with a quote in it that is printed", breaks="the printed form ends the string at the quote",
  demo=r"""
expect(agentspeak.parse_string(agentspeak.asl_repr('say "hi"')), 'say "hi"')
a = parse(r'a("x\"y").')
expect(str(parse(str(a))), str(a))
"""),
 dict(id="else-not-printed", property="P20", edits=[(P, "        if self.else_body and self.else_body.formulas:\n            builder.append(", "        if self.else_body and self.else_body.formulas and self.if_body.formulas:\n            builder.append(")],
  needs="a conditional with an empty first branch that is printed", breaks="the printed program has no other branch",
  demo="""
a = parse("!s. +!s <- if (a) { } else { .print(x) }.")
expect("else" in str(a), True)
"""),
 dict(id="shorter-literal", property="P02", edits=[(I, "            if len(self.args) != len(right.args):\n                return False\n        except", "            if len(self.args) > len(right.args):\n                return False\n        except")],
  needs="a structure unified with a longer one of the same functor", breaks="they unify",
  demo="""
expect(run('!s. +!s <- if (p(1) = p(1,2)) { .print(yes) } else { .print(no) }.'), ["demo no"])
"""),
 dict(id="one-number", property="P24", edits=[(I, "            not is_number(left) or not is_number(right)\n        ):\n            raise AslError(\n                \"bad operand types for binary op: %r %s %r\"\n                % (type(left), self.binary_op.lexeme, type(right))\n            )\n        elif self.binary_op.comp_op:", "            not is_number(left) and not is_number(right)\n        ):\n            raise AslError(\n                \"bad operand types for binary op: %r %s %r\"\n                % (type(left), self.binary_op.lexeme, type(right))\n            )\n        elif self.binary_op.comp_op:")],
  needs="mod with a text that has a percent sign on the left", breaks="a text is computed instead of an error",
  demo="""
try:
    out = run('!s. +!s <- X = "a%s"; Y = 2; Z = X mod Y; .print(got(Z)).')
except Exception:
    out = []
expect([x for x in out if "got" in x], [])
"""),
 dict(id="for-location", property="P25", edits=[(P, "extra_locs=[for_node.loc, for_node.generator.loc])", "extra_locs=[for_node.loc, for_node.condition.loc])")],
  needs="a for loop whose generator is not closed", breaks="parsing ends in an internal error",
  demo="""
try:
    parse("!s. +!s <- for (a { .print(x) }.")
except agentspeak.AggregatedError:
    pass
"""),
 dict(id="log-not-thrown", property="P26", edits=[(P, "    agent = parse(source.name, tokens, log)\n\n    log.throw()\n", "    agent = parse(source.name, tokens, log)\n\n    if not (agent.plans or agent.goals):\n        log.throw()\n")],
  needs="the parser tool on a source with plans and an error that does not stop parsing", breaks="it ends successfully",
  demo="""
import subprocess, sys, tempfile, os
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, "a.asl"), "w") as f:
        f.write("!s. +!s <- .print(x). ?\\n")
    expect(subprocess.run([sys.executable, "-m", "agentspeak.parser", os.path.join(d, "a.asl")], capture_output=True).returncode != 0, True)
"""),
 dict(id="negative-annot", property="P04", edits=[(R, "", "")], needs="", breaks="", demo=""),
]
plants = plants[:-1]
