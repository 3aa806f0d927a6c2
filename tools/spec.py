"""The properties, as data.  python3 tools/spec.py rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os
import sys

RT, ST, PA, LX, IN, EX, OP = ("agentspeak/runtime.py", "agentspeak/stdlib.py", "agentspeak/parser.py", "agentspeak/lexer.py",
                              "agentspeak/__init__.py", "agentspeak/ext_stdlib.py", "agentspeak/optimizer.py")

# id: (title, statement, over, quantified over, why tests cannot, files, [(mechanism, where)...])
P = {}


def prop(pid, title, statement, over, text, why, files, mech, state=()):
    P[pid] = dict(id=pid, title=title, statement=statement,
                  quantifier={"over": over.split(), "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "hook_needed": None})


prop("P01", "Backtracking restores variable bindings exactly",
     "Whenever an alternative of a query, a match against a belief, rule, plan or annotation, a solution of a library action or an "
     "iteration of a loop condition fails or is left for the next one, exactly the variable bindings made since its choice point are "
     "undone. Bindings made before the choice point stay. A match that succeeds keeps its bindings until it is resumed.",
     "programs histories", "all programs, terms and sequences of failing and succeeding alternatives, nested to any depth",
     "The tests run a few short queries; an alternative that leaves a stale binding only shows in a later alternative over the same variable, "
     "and the number of nestings is unbounded.",
     [IN, RT, ST, EX],
     [("binding records the variable on the trail", IN + " Var.bind"), ("undo to a choice point", IN + " reroll"),
      ("choice point around every alternative", RT + " TermQuery, ActionQuery, NotQuery, Agent.remove_belief; " + ST + " _member, _substring, _range_2, _count"),
      ("choice points of compiled loops", RT + " push_choicepoint, pop_choicepoint")],
     [("scope", "bindings of one intention", RT + " Intention.scope"), ("stack", "trail and choice points", RT + " Intention.stack")])

prop("P02", "Unification follows the structure of terms",
     "Two terms unify exactly if, after evaluating expressions and following bindings, they are equal constants (a boolean never equals a number), "
     "literals of one functor and arity or lists of one length with pairwise unifiable parts, or one side is a variable; a wildcard matches anything and binds nothing. "
     "Lists in head-and-tail notation and in element notation unify with each other when their elements do. "
     "Matching with annotations further requires every annotation of the pattern to match a different annotation of the other term, and yields at most one solution.",
     "inputs", "all pairs of terms, in all binding states of their variables",
     "Terms are unbounded trees; the tests unify about ten pairs.", [IN],
     [("dispatch on the kind of term", IN + " unify"), ("unify methods", IN + " Var, Wildcard, UnaryExpr, BinaryExpr, Literal, LinkedList"),
      ("annotations", IN + " Literal.unify_annotated")])

prop("P03", "Stored and sent terms do not depend on later bindings",
     "A term that leaves its scope (stored as belief, raised as event, sent as message, collected as result or passed to a Python function) has all bound variables replaced by their values and all expressions evaluated. "
     "Inside it one unbound variable becomes one fresh variable wherever it occurs, and different ones stay different. "
     "A term counts as ground exactly if it contains no unbound variable or wildcard, in arguments, annotations, list elements or operands.",
     "inputs", "all terms in all binding states",
     "Sharing between occurrences only shows with repeated variables in nested structure; the tests freeze three terms.", [IN],
     [("freeze, grounded and is_ground of every kind of term", IN + " Var, Wildcard, UnaryExpr, BinaryExpr, Literal, LinkedList, freeze, grounded, is_ground"),
      ("arguments of Python functions", IN + " _zip_specs")])

prop("P04", "The belief base holds exactly what was believed and not removed",
     "Adding a belief stores its ground form under its functor and arity together with its annotations, adding it again changes nothing, and adding a term that is not ground is an error that changes nothing. "
     "Queries and tests for a belief see every stored belief of that functor and arity and no other. "
     "Only adding, removing, replacing and abolishing beliefs change the belief base.",
     "programs histories", "all programs and all histories of belief changes",
     "The tests add and query a handful of beliefs; which operations may write the belief base is a statement about all code.", [RT, ST],
     [("store", RT + " Agent.add_belief"), ("lookup", RT + " TermQuery.execute, Agent.test_belief"), ("dispatch", RT + " Agent.call")],
     [("beliefs", "belief base by functor and arity", RT + " Agent.beliefs")])

prop("P05", "Removing a belief removes one matching belief, abolishing removes all",
     "Removing a belief deletes exactly one stored belief that matches the pattern, binds the variables of the pattern by it and raises the removal event; without a matching belief it succeeds without effect and without event. "
     "Replacing a belief removes a belief matching in functor, arity and constants, whatever the variables and expressions of the new belief are, and then adds the new one. "
     "Abolishing deletes all and only the beliefs that the pattern matches.",
     "programs histories", "all patterns, belief bases and orders of stored beliefs",
     "Which belief a pattern picks depends on set order and on annotations; tests have at most two candidates.", [RT, ST],
     [("removal", RT + " Agent.remove_belief, Agent.call"), ("abolish", ST + " _abolish"), ("replacement", RT + " BuildInstructionsVisitor.visit_formula, BuildReplacePatternVisitor")])

prop("P06", "An event runs the first applicable plan",
     "Plans are tried in the order in which they were added, and the first one whose trigger, goal type, functor and arity are those of the event, whose head matches it and whose context holds is executed, with the bindings of that match and context, and no other. "
     "If none is applicable, an achievement goal is an error, a test goal is answered from beliefs and rules, and a belief event has no effect.",
     "programs", "all plan libraries, events and belief bases",
     "Order and fallback matter only with several candidate plans that partly match; tests have one or two.", [RT],
     [("selection", RT + " Agent.call"), ("plan library", RT + " Agent.add_plan")],
     [("plans", "plan library", RT + " Agent.plans")])

prop("P07", "A goal called from a plan runs to its end before the plan continues",
     "The plan for a goal or event raised inside a plan is put on top of the very intention that raised it, which continues only when that plan has finished; a goal that is to be pursued later, an initial belief or goal, and a message start an intention of their own. "
     "When the plan of a goal ends, the variables of the calling term are bound in the caller to the values the plan computed. "
     "An intention is dropped when its last plan has ended, and only that one.",
     "programs histories", "all programs and nestings of goals, any number of concurrent intentions",
     "Mixing up intentions needs several of them active at once, which the tests hardly build.", [RT],
     [("placement", RT + " Agent.call"), ("end of plan", RT + " Agent.step")], [("intentions", "stacks of running plans", RT + " Agent.intentions")])

prop("P08", "Every step advances one runnable intention by one instruction",
     "A step executes exactly one instruction of the first intention that is not waiting, and continues it at the instruction that success or failure leads to. "
     "It reports that nothing is left to do exactly if every intention is waiting or there is none. "
     "Running an agent or an environment goes on as long as some agent has work or a deadline, and every agent of an environment gets its turn in each round.",
     "programs schedules histories", "all programs, all mixes of running and waiting intentions, any number of agents",
     "Interleavings of several intentions and agents are unbounded; tests run single agents to completion.", [RT],
     [("choice and execution", RT + " Agent.step"), ("run loops", RT + " Environment.run_agent, Environment.run")])

prop("P09", "Waiting intentions resume exactly when due",
     "An intention that waits does nothing until its timeout has passed or its event occurs; a matching event (same trigger, goal type and a term that the pattern matches) wakes every intention that waits for it and no other. "
     "Idle running sleeps until the earliest deadline of all waiting intentions and never for a negative time. "
     "The timeout of a wait is its argument in milliseconds from now, and arguments that are neither a number nor a valid event are errors.",
     "schedules programs", "all combinations of waiting intentions, events and times",
     "Needs several concurrent waits and events; tests wait once.", [RT, ST],
     [("wake-up", RT + " Agent.call"), ("polling", RT + " Waiter.poll, Agent.step"), ("deadlines", RT + " Agent.waiters, Agent.shortest_deadline, Environment.run_agent, Environment.run"),
      ("wait action", ST + " _wait")], [("waiter", "what an intention waits for", RT + " Intention.waiter")])

prop("P10", "Messages reach exactly their receivers, with content and sender",
     "A message is delivered once to every agent it names, or for a broadcast to every other agent of the environment, and to nobody if a receiver is unknown or the performative is not one of the known ones. "
     "It arrives as the event that its performative stands for (tell and untell change beliefs, achieve and unachieve goals), with its content as it was when sent, annotated with the name of the sender. "
     "Being told to drop a goal removes plans for matching goals and nothing else.",
     "programs histories", "all sets of agents, receivers, performatives and contents",
     "Receiver sets and performatives multiply; tests send three messages between two agents.", [ST, RT],
     [("send", ST + " _send"), ("broadcast", ST + " _broadcast"), ("delivery", RT + " Agent.call, Agent._unachieve")])

prop("P11", "Plans told to an agent work like plans it was built with",
     "A plan received as text is added to the receiver's plan library with the same trigger, head, context, body and annotation as if it stood in its source; text that is not exactly one valid plan is an error and adds nothing. "
     "Asking for plans sends each plan for the requested goal, and only those, in source form to the asking agent. "
     "Taking back a plan removes exactly the plans with that label.",
     "programs inputs", "all plan texts and plan libraries",
     "The text of a plan is arbitrary program text; tests exchange two plans.", [RT],
     [("tell", RT + " Agent._tell_how"), ("ask", RT + " Agent._ask_how, plan_to_str"), ("untell", RT + " Agent._untell_how")])

prop("P12", "Agents are built completely, under unique names, and share no state",
     "Every agent built from a source gets all its rules, plans, initial beliefs and initial goals in source order and is registered under a name that no other agent of the environment has, once it is complete; a source with errors registers nothing. "
     "Agents built together or from the same source never share beliefs, intentions, plan lists or variable bindings.",
     "programs configurations", "all sources, numbers of agents and names",
     "Sharing only shows when one of several agents changes its state; tests build at most two agents and look at names.", [RT],
     [("construction", RT + " Environment.build_agent_from_ast, Environment.build_agents, Environment._build_agent"), ("names", RT + " Environment._make_name"),
      ("per-agent containers", RT + " Agent.__init__, Intention.__init__")], [("agents", "registry by name", RT + " Environment.agents")])

prop("P13", "Plan bodies execute as written",
     "The formulas of a body are executed in order, each doing what its kind says (query, add, remove, replace, test, achieve now or later) on its own term, and a failing formula fails the plan. "
     "A conditional executes exactly the branch its condition selects, a for loop its body once for every solution, a while loop its body as long as the condition holds, each nested to any depth and with empty or missing bodies, and then execution continues after it. "
     "Queries and choice points opened by a formula or block are closed on every way out of it.",
     "programs", "all bodies with any nesting of blocks",
     "The jump structure depends on the nesting of blocks; tests compile five shapes.", [RT],
     [("code generation", RT + " BuildInstructionsVisitor"), ("instructions", RT + " push_query, next_or_fail, pop_query, push_choicepoint, pop_choicepoint, noop, add_belief, remove_belief, test_belief, call, call_delayed"),
      ("execution", RT + " Agent.step")])

prop("P14", "Queries enumerate all and only the solutions",
     "A conjunction yields every combination of solutions of its parts from left to right, a disjunction those of the left and then those of the right part, a negation succeeds once exactly if its operand has no solution, and constants succeed once or never. "
     "A literal yields one solution for every matching belief and for every solution of every matching rule, each rule applied with fresh variables; a unification one if its sides unify, a comparison one if it is true, and an action its own solutions. "
     "Each operator of a query is compiled to the query it denotes, with its operands in order.",
     "programs inputs", "all queries, rule sets and belief bases",
     "Queries nest without bound and rules are recursive; tests evaluate about ten.", [RT],
     [("evaluation", RT + " TrueQuery, FalseQuery, AndQuery, OrQuery, NotQuery, TermQuery, ActionQuery, UnifyQuery"), ("compilation", RT + " BuildQueryVisitor, BuildTermVisitor")])

prop("P15", "A malformed source is rejected, never silently altered",
     "Every source that the grammar does not allow is reported as an error with its location and no agent is created from it. "
     "Each place in the grammar accepts only the tokens that may stand there, nothing that was read is dropped, and every recorded error reaches the caller as a failure.",
     "inputs programs", "all source texts",
     "The set of malformed texts is infinite; tests try four.", [PA, RT, LX],
     [("syntax errors", PA + " parse_*"), ("error count", IN + " Log"), ("failure after recorded errors", RT + " Environment._build_agent, Environment.build_agent_from_ast, Agent._tell_how; " + PA + " main, repl")])

prop("P16", "Every source text is split into tokens without loss",
     "Every character of the source belongs to exactly one token, comment or white space, or is reported as illegal; an unclosed comment is reported. "
     "Keywords are recognised only as whole words, and longer operators are preferred to their prefixes. "
     "Every token carries the file name, line and columns at which it stands.",
     "inputs", "all source texts",
     "Token tables are tested on a few words; prefix conflicts between patterns and positions over several lines and comments are not.", [LX, IN],
     [("token table", LX + " TokenType"), ("scanner", LX + " tokenize, TokenStream"), ("strings", IN + " parse_string")])

prop("P17", "Expressions and statements are parsed with the documented precedence",
     "From weakest to strongest bind: or, and, not, comparisons, addition, multiplication, unary sign, power; binary operators associate to the left, a sign may stand in an exponent, and a chained comparison means the conjunction of its pairs. "
     "Every construct stores its parts in the roles they have in the source and in source order.",
     "inputs", "all expressions and statements",
     "Operator combinations are unbounded; tests parse a few expressions.", [PA, LX],
     [("precedence chain", PA + " parse_term, parse_and_expr, parse_not_expr, parse_comparison, parse_arith_expr, parse_product, parse_factor, parse_power, parse_atom"),
      ("operators of tokens", LX + " TokenType"), ("statements", PA + " parse_plan, parse_event, parse_body_formula, parse_literal, parse_list")])

prop("P18", "Compile-time evaluation agrees with run-time evaluation",
     "An expression of constants is replaced at compile time by the value that evaluating it at run time would give, and only if its operands are constants of the type the operator takes; everything else is kept, with its operands in place. "
     "An expression whose constant evaluation fails, or with an operand that can never have the required type, is reported as an error of the source. "
     "No part of a program is lost by this pass.",
     "programs inputs", "all expressions in all positions of a program",
     "Operators, operand kinds and positions multiply; tests fold four expressions.", [PA, IN],
     [("folding", PA + " NumericFoldVisitor, BooleanFoldVisitor, TermFoldVisitor, LogicalFoldVisitor, ConstFoldVisitor"), ("operators", IN + " UnaryOp, BinaryOp")])

prop("P19", "Every construct of the language is handled by every pass",
     "Every pass over a program (checking, folding, collecting variables and operators, compiling terms, queries and bodies) handles each kind of construct that the grammar allows at the places the pass visits. "
     "It visits all parts of the construct, and each construct is dispatched to its own handler.",
     "programs", "all programs the grammar allows",
     "A missing combination shows only when a program uses that construct at that place.", [PA, RT],
     [("dispatch", PA + " accept methods"), ("passes", PA + " FindVariablesVisitor, FindOpVisitor, *FoldVisitor; " + RT + " Build*Visitor")])

prop("P20", "A printed program means the same as the original",
     "The printed form of a parsed program is accepted by the parser and gives the same program: operators keep their grouping, blocks their nesting, strings their characters and separators stand where the grammar requires them. "
     "The printed form of a value is the source form of that value.",
     "programs inputs", "all programs and values",
     "Printing is compositional over unbounded trees; tests print one program.", [PA, IN],
     [("printing of programs", PA + " __str__ of Ast* classes"), ("printing of values", IN + " asl_repr, asl_str and asl_repr methods")])

prop("P21", "Included and nested parts become part of the program",
     "All beliefs, rules, goals and plans of an included file or a begin/end block become part of the including program, at most once per inclusion. "
     "A file is looked up relative to the file that includes it; including a file from itself, directly or through others, and including a missing file are errors. "
     "A block that is not closed, or an end without begin, is an error.",
     "programs configurations", "all include graphs and nestings",
     "Needs several files in different directories and cycles; tests include none or one.", [PA],
     [("directives", PA + " parse_agent, parse")])

prop("P22", "Actions are found by name and arity and get converted arguments",
     "An action is found by name and number of arguments, first among the exact ones, then among those taking any number, then in the library extended by this one; registering the same name and arity twice is refused. "
     "A Python function registered as function, predicate or procedure gets the environment and agent where it asks for them and otherwise the arguments of the call in order, converted to the declared types, and its result is unified with the last argument, decides success, or is ignored.",
     "programs configurations", "all registrations and calls",
     "Combinations of arities, argument types and libraries; tests register two.", [IN, ST, EX],
     [("registry", IN + " Actions"), ("conversion", IN + " _zip_specs, _count_specs"), ("libraries", ST + " actions; " + EX + " actions")])

prop("P23", "Run-time errors name the failing program location",
     "Whatever goes wrong while an instruction executes (an error of the program, an exception of an action, a failing formula) ends the step with an error that gives the source location of that instruction, and for exceptions of Python code also the agent and the exception; nothing is swallowed. "
     "Every instruction that can fail has a location.",
     "programs fault_sequences", "all programs and all exceptions raised by actions",
     "Every instruction can fail in many ways; tests provoke two.", [RT, IN],
     [("wrapping", RT + " Agent.step"), ("locations", RT + " BuildInstructionsVisitor"), ("log", IN + " Log, LogFormatter")])

prop("P24", "Expressions compute with operands of the right type only",
     "Arithmetic is done on numbers only, logic on booleans only and comparison on ground terms only; everything else is an error, never a silently computed value. "
     "Each operator sign stands for its own operation, with the left operand first, on the current values of its operands.",
     "inputs programs", "all operators, operand values and binding states",
     "Operators times operand types are not enumerated by tests (True and 1 are both numbers in Python).", [IN],
     [("evaluation", IN + " UnaryExpr.evaluate, BinaryExpr.evaluate"), ("operator table", IN + " UnaryOp, BinaryOp, Operator"), ("types", IN + " is_number")])

prop("P25", "No reachable code refers to names, members or arguments that do not exist",
     "On no path does the interpreter use an undefined name, a member that no class or module involved provides, a call with arguments the callee does not take, or a message format that does not fit its arguments, so that no program or input ends in such an internal error.",
     "programs inputs", "all paths of the interpreter, in particular error handling",
     "Error paths are mostly not executed by any test.", [IN, RT, PA, LX, ST, EX],
     [("all functions", "agentspeak/*.py except optimizer.py")])

prop("P26", "The command line tools fail visibly",
     "Running a source or a tool on it ends with a non-zero exit status and a message whenever the source has errors or the program fails, and interactive use reports the error and goes on with a fresh line. "
     "Pending errors are never ignored before a program is run.",
     "inputs", "all sources and inputs",
     "Exit status is tested for none of the entry points.", [RT, PA, LX, "agentspeak/__main__.py"],
     [("entry points", RT + " main, repl; " + PA + " main, repl; " + LX + " main, repl")])

prop("P27", "Library actions give all and only the documented results",
     "The enumerating actions (members of a list, positions of a substring, numbers of a range) yield every element once and in order; the collecting ones (all results, count, sum) take every solution of their query into account exactly once, leave no binding of it behind, and unify the collected value with their last argument. "
     "The other functions and predicates compute what their name says on the values of their arguments, and fail or raise an error otherwise.",
     "inputs programs", "all arguments and queries",
     "Tests call each action at most once.", [ST, EX],
     [("library", ST + " actions"), ("extended library", EX + " actions")])

prop("P28", "Equality, order and hash of terms are consistent",
     "Equal terms have equal hashes, inequality is the negation of equality, and equality of literals takes functor, arguments and annotations into account. "
     "Literals and lists are ordered as their functors or elements are, with less, less-or-equal, greater and greater-or-equal agreeing, and a comparison with something incomparable is an error, never an answer. "
     "A list compares by its elements, whichever notation it was written in.",
     "inputs", "all pairs of terms",
     "Pairs of terms are unbounded; tests compare four.", [IN],
     [("comparison methods", IN + " Literal, LinkedList")])

NA = {}


def na(pid, title, statement, over, text, why, files, mech, reason):
    prop(pid, title, statement, over, text, why, files, mech)
    NA[pid] = reason


na("P90", "Optimised programs behave like the original ones",
   "Running a program through the optimiser gives a program with the same observable behaviour, only with fewer or cheaper instructions.",
   "programs", "all programs", "Equivalence of two programs quantifies over all their runs.", [OP],
   [("optimiser", OP)],
   "Semantic equivalence of arbitrary input and output programs is a translation-validation problem over unbounded runs that no source analysis in reach decides; "
   "the optimiser is moreover experimental, off by default and not reachable from the interpreter's entry points (only its decorators are used).")
na("P91", "Every run of a terminating program terminates",
   "The interpreter adds no non-termination of its own: a program whose plans, rules and loops are finite ends after finitely many steps.",
   "programs schedules", "all programs", "Termination is about infinite runs.", [RT],
   [("run loops", RT + " Environment.run")],
   "Termination depends on the interpreted program (recursive rules, loops and goals), a runtime quantity; no sound static argument over the interpreter's source bounds it.")
na("P92", "Waiting is accurate in real time",
   "An intention that waits a given time resumes within a small bounded delay after it.",
   "schedules", "all loads and clocks", "Depends on the clock and the scheduler.", [RT],
   [("sleep", RT + " Environment.run_agent")],
   "Delays depend on the operating system's clock and scheduler and on how long other instructions take; that is not decidable from the source.")
na("P93", "Random actions follow their documented distribution",
   "The random number actions draw uniformly from the interval or range they document.",
   "histories", "all sequences of draws", "A distribution is a property of unbounded histories.", [ST, EX],
   [("random", ST + " .random; " + EX + " .randint")],
   "Distributions are properties of the Python standard library's generator over unbounded histories; the source only shows which function is called (covered under library actions).")
na("P94", "Numeric results are as precise as the platform allows",
   "Arithmetic on large and fractional numbers loses no more precision than a double allows.",
   "inputs", "all numbers", "Precision quantifies over all numbers.", [IN],
   [("numbers", PA + " parse_atom")],
   "Rounding is a property of runtime values of Python floats; a source analysis can only name the operation used (covered by the operator table).")
na("P95", "Memory use of a long running agent stays bounded",
   "An agent that runs forever with a bounded belief base and bounded goals uses bounded memory.",
   "histories", "all infinite runs", "Needs unbounded runs.", [RT],
   [("intention stacks", RT + " Agent.intentions")],
   "The size of belief bases, trails and stacks depends on the interpreted program and its inputs over unbounded histories; no sound static bound exists.")

TECH = {}   # id -> technique, filled below
TECH_DEFAULT = "path-sensitive static analysis of the source (symbolic access paths, per-path obligations)"
NOTE_DEFAULT = ("Decides the obligations named in the evidence on every abstract path of the anchored functions, helpers and refactored forms "
                "included. Trusts the engine's model of Python; loops are represented by one iteration per state; dynamic patching is not modelled.")


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.setrecursionlimit(20000)
    from sa import core, rules  # noqa: F401
    have = {}
    for r in core.RULES:
        for p in r.props:
            have.setdefault(p, []).append(r.name)
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in sorted(P):
            assert len(P[p]["title"]) <= 80, p
            f.write(json.dumps(P[p], sort_keys=True) + "\n")
    checks = []
    nal = [{"property": p, "reason": NA[p]} for p in sorted(NA)]
    for p in sorted(P):
        if p in NA:
            continue
        if p not in have:
            nal.append({"property": p, "reason": "no check yet"})
            continue
        checks.append({
            "property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH.get(p, TECH_DEFAULT), "level": "other",
            "level_note": "Rules: %s. %s" % (", ".join(have[p]), NOTE_DEFAULT)})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": nal,
                   "notes": "All checks read /repo's current source; nothing of /repo is executed. No hooks in /repo are needed."}, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", [x["property"] for x in nal])


if __name__ == "__main__":
    main()
