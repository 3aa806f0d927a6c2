From 88c8b6ee38119120cad6491795fd3e9243bd881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 01/34] fix: record the choicepoint before binding a variable
 to a literal

Unifying a literal with an unbound variable rerolled to a choicepoint that
was never pushed, so backtracking wiped every binding of the intention.
---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..e19d1a4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -631,6 +631,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From d0fd50867943a2f7bdb8fcf0f0673d9bde3ade18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 02/34] fix: undo the bindings of an action when backtracking
 out of it

(.length([1,2],N) & N > 5) | N = 7 failed, because N kept the value from
the abandoned alternative.
---
 agentspeak/runtime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..1d4175f 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -183,8 +183,11 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
         for _ in self.impl(agent, self.term, intention):
             yield
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
 
 class TermQuery:
-- 
2.43.0


From 237797b06115dd6cbed5b00e06fa5bbe010faaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 03/34] fix: do not share frozen variables between solutions of
 .findall

A variable that was unbound in one solution stayed unbound in all later ones.
---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..d2b8ee9 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -278,9 +278,8 @@ def _findall(agent, term, intention):
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-    memo = {}
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, memo))
+        result.append(agentspeak.freeze(pattern, intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 91e46ff9df1235c0f7f04266ff7e0d9b30f546c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 04/34] fix: .abolish also removes beliefs with more
 annotations than the pattern

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index d2b8ee9..50edff8 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -309,7 +309,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From 7917d41b8e09d390795577136aab3df929720357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 05/34] fix: do not crash on empty intention stacks when
 posting a subgoal

An unachieve leaves an empty stack behind until the next step.
---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1d4175f..d12c79c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -470,7 +470,7 @@ class Agent:
 
                     if not delayed and self.intentions:
                         for intention_stack in self.intentions:
-                            if intention_stack[-1] == calling_intention:
+                            if intention_stack and intention_stack[-1] == calling_intention:
                                 intention_stack.append(intention)
                                 return True
 
-- 
2.43.0


From c15c37fda5596700276d9957e7d6a75356ea5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 06/34] fix: skip intentions without a goal when handling
 unachieve

The intention of the repl has no head term.
---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d12c79c..7741c06 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -501,7 +501,7 @@ class Agent:
 
             intention = intention_stack[-1]
 
-            if intention.head_term.functor == term.functor:
+            if intention.head_term is not None and intention.head_term.functor == term.functor:
                 if agentspeak.unifies(term.args, intention.head_term.args):
                     intention_stack.remove(intention)
 
-- 
2.43.0


From e2a6c7c92f311d046e0c610e7f076ea1d6d56a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 07/34] fix: do not sleep for a negative time when a deadline
 has just passed

---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7741c06..a5f1da6 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -879,8 +879,8 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
-                    time.sleep(wait_until - self.time())
+                if wait_until is not None:
+                    time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
     def run(self):
@@ -895,7 +895,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(0, min(deadlines) - self.time()))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From a43f372579e1796dcc2ad7835882f51556004c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 08/34] fix: resolve variables in the text of tellHow,
 untellHow and askHow messages

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 50edff8..585eab9 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,7 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        message = agentspeak.Literal("plain_text", (agentspeak.freeze(term.args[2], intention.scope, {}), ), frozenset())
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From 2cadf1c8da3d2c4cf2a284924d336bb0ad6e9956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 09/34] fix: do not garble non-ASCII characters in string
 literals

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index e19d1a4..04c4b7b 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -318,7 +318,7 @@ def sanitize_functor(s):
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return s[1:-1].encode("latin-1", "backslashreplace").decode("unicode_escape")
 
 
 def asl_str(term):
-- 
2.43.0


From ecf1e7f43e9fe5058e1e2fa5bec9e08c3e1fba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 10/34] fix: use the colour reset code that exists when
 formatting critical messages

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 04c4b7b..dae4b0e 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -88,7 +88,7 @@ class LogFormatter(logging.Formatter):
 
         # Add error level.
         if record.levelno >= logging.CRITICAL:
-            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.Reset)
+            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.RESET)
         elif record.levelno >= logging.ERROR:
             b.append(colorama.Fore.RED + "error: " + colorama.Fore.RESET)
         elif record.levelno >= logging.WARNING:
-- 
2.43.0


From 4fddfa35734309c9d1afd0a2050c9e0fc76724b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 11/34] fix: answer askHow with every matching plan and warn
 about unknown plans

Only the last plan of a group was sent, and asking for an unknown plan
ended in an IndexError.
---
 agentspeak/runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index a5f1da6..d33aa35 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -594,11 +594,11 @@ class Agent:
                 for differents in plan:
                     strplan = plan_to_str(differents)
                     message = agentspeak.Literal("plain_text", (strplan,), frozenset())
-                for receiver in receiving_agents:
-                    self._call_ask_how(receiver, message, intention)
+                    for receiver in receiving_agents:
+                        self._call_ask_how(receiver, message, intention)
         else:
             log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+            log.warning("agent %r does not know the plan '%s'", self.name, term.args[0])
 
     def _untell_how(self, term):
         """
-- 
2.43.0


From bb3a458bc7635fb220c7570b5f87ede889cc7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 12/34] fix: find the variables of linked lists and operators
 in beliefs

Such beliefs crashed the validation with an AttributeError.
---
 agentspeak/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..07bcb34 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1060,6 +1060,12 @@ class FindVariablesVisitor(object):
             for var in term.accept(self):
                 yield var
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_const(self, ast_const):
         return
         yield
@@ -1069,14 +1075,14 @@ class FindVariablesVisitor(object):
 
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
-- 
2.43.0


From 6015d570f0ecc2d3b483947b587e7ac54ad9b427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 13/34] fix: report linked lists in numeric and boolean context

Instead of crashing with an AttributeError.
---
 agentspeak/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 07bcb34..9faba0b 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1186,6 +1186,9 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    def visit_linked_list(self, ast_linked_list):
+        return self.visit_list(ast_linked_list)
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1266,6 +1269,10 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    def visit_linked_list(self, ast_linked_list):
+        return self.visit_list(ast_linked_list)
 
 
 class TermFoldVisitor(object):
-- 
2.43.0


From 37ce2727ba8f4b946dece72604dfcae2cbc673c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 14/34] fix: report overflows when folding constants

b(10 ** 400). escaped the parser as an OverflowError.
---
 agentspeak/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 9faba0b..38123ed 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1136,7 +1136,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except ArithmeticError as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
-- 
2.43.0


From eecfb4652b80beb3256dfe75fe975834ab03fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 15/34] fix: report invalid escape sequences in strings

---
 agentspeak/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 38123ed..e3dec73 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -548,7 +548,10 @@ def parse_atom(tok, tokens, log):
         return next(tokens), const
     elif tok.token.string:
         const = AstConst()
-        const.value = agentspeak.parse_string(tok.lexeme)
+        try:
+            const.value = agentspeak.parse_string(tok.lexeme)
+        except UnicodeDecodeError:
+            raise log.error("invalid escape sequence in string: %s", tok.lexeme, loc=tok.loc)
         const.loc = tok.loc
         return next(tokens), const
     else:
@@ -959,7 +962,10 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 tok = next(tokens)
                 if not tok.token.string:
                     raise log.error("expected filename to include, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-                include = agentspeak.parse_string(tok.lexeme)
+                try:
+                    include = agentspeak.parse_string(tok.lexeme)
+                except UnicodeDecodeError:
+                    raise log.error("invalid escape sequence in string: %s", tok.lexeme, loc=tok.loc)
                 tok = next(tokens)
                 if tok.lexeme != ")":
                     raise log.error("expected ')' after include filename, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
-- 
2.43.0


From 4310996bc321020b7d2c227198af3a04068a5f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 16/34] fix: detect include cycles through unnormalized paths
 and report errors in included files

The line number was passed as the log of the included token stream.
---
 agentspeak/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index e3dec73..69cc21e 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -974,7 +974,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                     raise log.error("expected '}' to close include directive, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[include_loc])
 
                 # Resolve included path.
-                include = os.path.join(os.path.dirname(filename), include)
+                include = os.path.normpath(os.path.join(os.path.dirname(filename), include))
 
                 # Parse included file.
                 if include in included_files:
@@ -988,7 +988,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log, 1)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From 03d61d214d4f53cde1740fa314cbf26ade9ab827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 17/34] fix: report lists and arithmetic signs in query context

Instead of crashing with an AttributeError.
---
 agentspeak/runtime.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d33aa35..9f32761 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -144,7 +144,13 @@ class BuildQueryVisitor:
             return NotQuery(ast_unary_op.operand.accept(self))
         else:
             raise self.log.error("non-boolean unary operator in query context: '%s'",
-                                 ast_unary_op.operator.lexeme, ast_unary_op.loc)
+                                 ast_unary_op.operator.value.lexeme, loc=ast_unary_op.loc)
+
+    def visit_list(self, ast_list):
+        raise self.log.error("did not expect list in query context", loc=ast_list.loc)
+
+    def visit_linked_list(self, ast_linked_list):
+        return self.visit_list(ast_linked_list)
 
     def visit_variable(self, ast_variable):
         return TermQuery(ast_variable.accept(BuildTermVisitor(self.variables)))
-- 
2.43.0


From 4e1aab8a944764611b61ce9302b04d9ea931639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 18/34] fix: give the source location of failing removals and
 conditions

---
 agentspeak/runtime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 9f32761..6e8b794 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -996,14 +996,16 @@ class BuildInstructionsVisitor:
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.remove:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
-            self.add_instr(functools.partial(remove_belief, term))
+            self.add_instr(functools.partial(remove_belief, term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.test:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(test_belief, term),
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.replace:
             removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
-            self.add_instr(functools.partial(remove_belief, removal_term))
+            self.add_instr(functools.partial(remove_belief, removal_term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
 
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(add_belief, term),
@@ -1028,7 +1030,7 @@ class BuildInstructionsVisitor:
         query = ast_for.generator.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
 
-        for_head = self.add_instr(next_or_fail)
+        for_head = self.add_instr(next_or_fail, loc=ast_for.generator.loc)
 
         last_in_loop = ast_for.body.accept(self)
         last_in_loop.success = for_head
@@ -1040,7 +1042,7 @@ class BuildInstructionsVisitor:
     def visit_if_then_else(self, ast_if_then_else):
         query = ast_if_then_else.condition.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_if_then_else.condition.loc)
 
         tail = Instruction(pop_query)
 
@@ -1069,7 +1071,7 @@ class BuildInstructionsVisitor:
         while_head = self.add_instr(functools.partial(push_query, query))
         self.add_instr(push_choicepoint)
 
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)
         test_instr.failure = tail
 
         self.add_instr(pop_query)
-- 
2.43.0


From e07ae417b1d8754f4f73652294dde8ecb77e9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 19/34] fix: report comments that are never closed

The rest of the program was dropped silently.
---
 agentspeak/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..21de05e 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -194,6 +194,9 @@ def tokenize(sourcefile, log, firstline=1):
                 log.error("illegal character '%s'", line[startcol], loc=SourceLocation(sourcefile.name, lineno + firstline, startcol, startcol, line))
                 startcol += 1
 
+    if in_comment:
+        log.error("end of file, but comment has not been closed", loc=SourceLocation(sourcefile.name, lineno + firstline, len(line), len(line), line))
+
 
 class TokenStream(object):
     def __init__(self, source, log, firstline=1):
-- 
2.43.0


From f9fa1022633cd9b5abad993506264abe0eaaf54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 20/34] fix: do not share belief sets and plan lists between
 agents built together

The instances shared the inner sets, so that a belief of one agent became a
belief of all. Also give all of them their initial belief events and the
requested name.
---
 agentspeak/runtime.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 6e8b794..642b8f5 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -852,17 +852,27 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls, name=name)
 
         # Create more instances from the prototype, but with their own
         # callstacks. This is more efficient than making complete deep copies.
         agents = [prototype_agent]
 
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
+            agent = agent_cls(self, self._make_name(name or source.name))
+
+            for rules in prototype_agent.rules.values():
+                for rule in rules:
+                    agent.add_rule(rule)
+
+            for plans in prototype_agent.plans.values():
+                for plan in plans:
+                    agent.add_plan(plan)
+
+            for ast_belief in ast_agent.beliefs:
+                belief = ast_belief.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
 
             for ast_goal in ast_agent.goals:
                 term = ast_goal.atom.accept(BuildTermVisitor({}))
-- 
2.43.0


From 4a79cffaad88da8bd1ec43d908c3d7c3163f9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 21/34] fix: reject malformed plans in tellHow messages

Errors were dropped and the remains of the plan added to the library, and
text that does not start like a plan ended in an UnboundLocalError.
---
 agentspeak/runtime.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 642b8f5..108d5ce 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -517,21 +517,17 @@ class Agent:
         """
         str_plan = term.args[0]
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
-
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
+        # Parse the string to an AstPlan
         log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
-
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<tellHow>", str_plan), log)
+        try:
+            tok, ast_plan = agentspeak.parser.parse_plan(next(tokens), tokens, log)
+        except StopIteration:
+            raise log.error("unexpected end of plan: '%s'", str_plan)
+        if tok.lexeme != ".":
+            raise log.error("expected end of plan, got '%s'", tok.lexeme, loc=tok.loc)
+        ast_plan = ast_plan.accept(agentspeak.parser.ConstFoldVisitor(log))
+        log.throw()
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
@@ -549,6 +545,9 @@ class Agent:
         if ast_plan.body:
             ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
+        # Report errors
+        log.throw()
+
         # Converts the Astplan to Plan
             
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-- 
2.43.0


From ffca6d189c17ed14293e1025671861569146c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 22/34] fix: let plans added with tellHow use the actions of
 the agent

They were always compiled against the standard library.
---
 agentspeak/runtime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 108d5ce..f36b31d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -366,6 +366,9 @@ class Agent:
 
         self.intentions = collections.deque()
 
+        # Actions available to plans added with tellHow.
+        self.actions = None
+
     def dump(self):
         LOGGER.info("Belief base")
         for beliefs in self.beliefs.values():
@@ -531,7 +534,9 @@ class Agent:
 
         # Prepare the conversion of Astplan to Plan
         variables = {}
-        actions = agentspeak.stdlib.actions
+        actions = self.actions
+        if actions is None:
+            from agentspeak.stdlib import actions
 
         head = ast_plan.event.head.accept(BuildTermVisitor(variables))
 
@@ -782,6 +787,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
@@ -859,6 +865,7 @@ class Environment:
 
         while len(agents) < n:
             agent = agent_cls(self, self._make_name(name or source.name))
+            agent.actions = actions
 
             for rules in prototype_agent.rules.values():
                 for rule in rules:
-- 
2.43.0


From 5eb4abae4b81ddf20dec063a15d3a9a3819f2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 23/34] fix: send plans as written when answering askHow

The text was assembled from the compiled plan: variables of the context did
not match those of the head and body, constant arguments displaced
variables, plans without body got the body 'None', negations of conjunctions
crashed and the second request failed, because the first one consumed the
arguments of the plan.
---
 agentspeak/runtime.py | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index f36b31d..aa25628 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -24,7 +24,6 @@ import functools
 import os.path
 import sys
 import time
-import re
 
 import agentspeak
 import agentspeak.lexer
@@ -316,7 +315,7 @@ class Plan:
         self.body = body
         self.str_body = str_body
         self.annotation = annotation
-        self.args = [None,None]
+        self.ast_plan = None
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -557,7 +556,7 @@ class Agent:
             
         plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
         
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan.ast_plan = ast_plan
 
         self.add_plan(plan)
 
@@ -745,26 +744,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return str(plan.ast_plan) + "."
 
 
 class Environment:
@@ -816,9 +796,7 @@ class Environment:
             
             plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
 
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
-
-
+            plan.ast_plan = ast_plan
 
             agent.add_plan(plan)
 
-- 
2.43.0


From d27e1930b7824f8409dead3b8021dd0c8e2e346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:18 +0000
Subject: [PATCH 24/34] fix: answer askHow only with plans for the requested
 functor

All plans whose functor was a substring of the request were sent.
---
 agentspeak/runtime.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index aa25628..d44526d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -579,11 +579,15 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
+        # The functor of the requested trigger
+        tokens = agentspeak.lexer.tokenize(agentspeak.StringSource("<askHow>", term.args[0]), agentspeak.Log(LOGGER))
+        functor = next((tok.lexeme for tok in tokens if tok.token.functor), None)
+
         plans_wanted = collections.defaultdict(lambda: [])
         plans = self.plans.values()
         for plan in plans:
             for differents in plan:
-                if differents.head.functor in term.args[0]:
+                if differents.head.functor == functor:
                     plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
 
         # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
-- 
2.43.0


From d41d44b070509973697f210c7895ec567939207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 25/34] fix: iterate over a snapshot of the beliefs in queries

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index d44526d..a20c24e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -214,7 +214,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From 5f0e22b48137e98627fc02a9963a0b95e4e25cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 26/34] fix: keep the grouping of negative bases when printing
 powers

---
 agentspeak/__init__.py | 6 +++++-
 agentspeak/parser.py   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index dae4b0e..55c67fc 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -587,8 +587,12 @@ class BinaryExpr(object):
         return freeze(self.evaluate(scope), scope, memo)
 
     def asl_repr(self):
+        left = asl_repr(self.left)
+        if self.binary_op == BinaryOp.op_pow.value and left.startswith("-"):
+            # The sign binds weaker than the power.
+            left = "(%s)" % left
         return "(%s %s %s)" % (
-            asl_repr(self.left),
+            left,
             self.binary_op.lexeme,
             asl_repr(self.right),
         )
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 69cc21e..7459500 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,11 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        left = str(self.left)
+        if self.operator == BinaryOp.op_pow and left.startswith("-"):
+            # The sign binds weaker than the power.
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From 61f801f84f255738bf9353eaaace618e9b60de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:11 +0000
Subject: [PATCH 27/34] fix: print negations of compound queries

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index a20c24e..4107408 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -282,7 +282,7 @@ class NotQuery:
             yield
 
     def __str__(self):
-        return "not " + str(self.query.term)
+        return "not %s" % (self.query, )
 
 
 class UnifyQuery:
-- 
2.43.0


From c706c4fcc98a64ca2257922f24832d295a0efc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:37 +0000
Subject: [PATCH 28/34] fix: print actions and constants in rules and contexts

---
 agentspeak/runtime.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 4107408..8fd7f6e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -175,12 +175,18 @@ class TrueQuery:
     def execute(self, agent, intention):
         yield
 
+    def __str__(self):
+        return "true"
+
 
 class FalseQuery:
     def execute(self, agent, intention):
         return
         yield
 
+    def __str__(self):
+        return "false"
+
 
 class ActionQuery:
     def __init__(self, term, impl):
@@ -194,6 +200,9 @@ class ActionQuery:
             yield
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    def __str__(self):
+        return str(self.term)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 0064dd97f63c7689b585326aee2ec0c1bba03b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:09 +0000
Subject: [PATCH 29/34] fix: keep reading when a block is incomplete in the
 parser's interactive mode

An incomplete begin block typed at the prompt ended the session with an
AttributeError, because the token list there cannot be peeked.
---
 agentspeak/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 7459500..09fdb7e 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1006,7 +1006,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 if tok.lexeme != "}":
                     raise log.error("expected '}' after begin, got '%s'", tok.lexeme, loc=tok.loc, extra_locs=[begin_loc])
                 log.warning("directives are ignored as of yet", loc=sub_directive.loc)
-                sub_agent = parse(filename, tokens, log, included_files, sub_directive)
+                sub_agent = parse_agent(filename, tokens, log, included_files, sub_directive)
                 agent.beliefs += sub_agent.beliefs
                 agent.rules += sub_agent.rules
                 agent.goals += sub_agent.goals
-- 
2.43.0


From 4928f3f1806db04226c748f7acce3642a83da9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:09 +0000
Subject: [PATCH 30/34] fix: report where an unclosed block was begun

---
 agentspeak/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 09fdb7e..8f306c6 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -952,8 +952,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
             tok = next(tokens)
         except StopIteration:
             if directive:
-                # TODO: Where was the directive started?
-                raise log.error("end of file, but did not close directive '%s'", directive)
+                raise log.error("end of file, but did not close directive '%s'", directive, loc=directive.loc)
             return validate(agent, log)
 
         if tok.lexeme == "{":
-- 
2.43.0


From eddbe0f633afd7daa221d5bcdfb8add965879c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:36 +0000
Subject: [PATCH 31/34] fix: do not resume a failed line in the interactive
 mode

After an error inside a plan called from the prompt, the failing intention
stayed on top of the prompt's own one and was resumed instead of the next line.
---
 agentspeak/runtime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 8fd7f6e..407c411 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1151,7 +1151,14 @@ def repl(agent, env, actions):
                     body.accept(BuildInstructionsVisitor(variables, actions, intention.instr, log))
                     log.throw()
                     agent.intentions.append(collections.deque([intention]))
-                    env.run_agent(agent)
+                    try:
+                        env.run_agent(agent)
+                    except (agentspeak.AggregatedError, agentspeak.AslError):
+                        # Do not resume the failed line with the next one.
+                        for intention_stack in list(agent.intentions):
+                            if intention in intention_stack:
+                                agent.intentions.remove(intention_stack)
+                        raise
                     dump_variables(variables, intention.scope)
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
-- 
2.43.0


From 58ec5ce96ac23fb40bacc1b280e93c0051612ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 32/34] fix: let .member go through lists with a bound tail

---
 agentspeak/__init__.py | 13 +++++++++++++
 agentspeak/stdlib.py   |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 55c67fc..5f56d03 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -879,6 +879,19 @@ def evaluate(term, scope):
         return term
 
 
+def elements(term, scope):
+    """
+    Returns the elements of a list, following bound tails.
+    """
+    result = []
+    rest = evaluate(term, scope)
+    while isinstance(rest, LinkedList):
+        result.append(rest.head)
+        rest = evaluate(rest.tail, scope)
+    result.extend(rest)
+    return result
+
+
 def unify(left, right, scope, stack):
     """
     Unifies the two given terms. Variable bindings are done in *scope* and
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 585eab9..d25fb8a 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -247,7 +247,7 @@ def _substring(agent, term, intention):
 def _member(agent, term, intention):
     choicepoint = object()
 
-    for member in agentspeak.evaluate(term.args[1], intention.scope):
+    for member in agentspeak.elements(term.args[1], intention.scope):
         intention.stack.append(choicepoint)
 
         if agentspeak.unify(term.args[0], member, intention.scope, intention.stack):
-- 
2.43.0


From afdf7ad0d14655ecfdf27a86c11cff16506cbfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:15 +0000
Subject: [PATCH 33/34] fix: let .concat join lists in head and tail notation
 and print values as the language does

---
 agentspeak/stdlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index d25fb8a..50c7ef3 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -196,10 +196,10 @@ def _my_name(agent, term, intention):
 def _concat(agent, term, intention):
     args = [agentspeak.grounded(arg, intention.scope) for arg in term.args[:-1]]
 
-    if all(isinstance(arg, (tuple, list)) for arg in args):
+    if all(agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
-        result = "".join(str(arg) for arg in args)
+        result = "".join(asl_str(arg) for arg in args)
 
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
-- 
2.43.0


From 2d277684a9337aabc82f89ce1f491a010e89fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 34/34] fix: compute the pattern of .findall and .sum in each
 solution of the query

---
 agentspeak/ext_stdlib.py | 3 +--
 agentspeak/stdlib.py     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..8f72196 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -34,12 +34,11 @@ actions.add_function(".randint", (int, int, ), random.randint)
 @actions.add(".sum", 3)
 @agentspeak.optimizer.function_like
 def _sum(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
     query = agentspeak.runtime.TermQuery(term.args[1])
     total = 0
 
     for _ in query.execute(agent, intention):
-        total += agentspeak.grounded(pattern, intention.scope)
+        total += agentspeak.grounded(term.args[0], intention.scope)
 
     if agentspeak.unify(total, term.args[2], intention.scope, intention.stack):
         yield
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 50c7ef3..03103af 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -274,12 +274,11 @@ def _ground(agent, term, intention):
 @actions.add(".findall", 3)
 @agentspeak.optimizer.function_like
 def _findall(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, {}))
+        result.append(agentspeak.freeze(term.args[0], intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0

