from . import terms, queries, agents, actions, code, registry, build, grammar, lexer, resolve, fold, printing, equality, program
