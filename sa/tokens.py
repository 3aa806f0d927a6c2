"""The token table of the lexer, read from its source: an ordered list of token kinds, each with its regular
expression and attributes.  Constants are folded; nothing of the repository is run."""
import ast
from .core import AnalysisBroken
from . import rx

LEX = "agentspeak.lexer"


class NotConst(Exception):
    pass


def fold(prog, module, node, depth=0, scope=None):
    """Value of a constant expression: strings, numbers, None, booleans, lists and tuples, dicts, enum members (as
    ("member", class, name)) and compiled patterns (as ("re", pattern))."""
    F = lambda n: fold(prog, module, n, depth + 1, scope)
    if depth > 40:
        raise NotConst("too deep")
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        return [F(e) for e in node.elts]
    if isinstance(node, ast.Dict):
        return {F(k): F(v) for k, v in zip(node.keys, node.values)}
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -F(node.operand)
    if isinstance(node, ast.BinOp):
        l, r = F(node.left), F(node.right)
        if isinstance(node.op, ast.Add) and type(l) is type(r) and isinstance(l, (str, list, int)):
            return l + r
        if isinstance(node.op, ast.Mod) and isinstance(l, str):
            return l % (tuple(r) if isinstance(r, list) else r)
        raise NotConst(ast.dump(node)[:80])
    if isinstance(node, ast.JoinedStr):
        return "".join(str(F(v.value)) if isinstance(v, ast.FormattedValue) else v.value for v in node.values)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.keywords:
        if node.func.attr == "join" and len(node.args) == 1:
            return F(node.func.value).join(F(node.args[0]))
        if node.func.attr == "format":
            return F(node.func.value).format(*[F(a) for a in node.args])
    if isinstance(node, ast.Call):
        q = prog.resolve_expr(module, node.func)
        if q == "re.escape" and len(node.args) == 1:
            import re
            return re.escape(F(node.args[0]))
        if q == "re.compile" and node.args:
            if len(node.args) > 1 or node.keywords:
                raise NotConst("flags of a regular expression")
            return ("re", F(node.args[0]))
        raise NotConst(ast.dump(node)[:80])
    if isinstance(node, (ast.Name, ast.Attribute)):
        if isinstance(node, ast.Name) and scope and node.id in scope:
            return F(scope[node.id])
        q = prog.resolve_expr(module, node)
        if q:
            cls, _, name = q.rpartition(".")
            if cls in prog.classes and name in prog.classes[cls].assigns:
                return ("member", cls.rsplit(".", 1)[-1], name)
            m, _, name = q.rpartition(".")
            if m in prog.modules:
                for n in prog.modules[m].tree.body:
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                        return fold(prog, prog.modules[m], n.value, depth + 1)
        raise NotConst(q or ast.dump(node)[:80])
    raise NotConst(ast.dump(node)[:80])


class Tok(object):
    def __init__(self, name, regex, attrs, node, order):
        self.name, self.regex, self.attrs, self.node, self.order = name, regex, attrs, node, order
        self.kind = name
        self.lit = rx.literal(regex)      # the only string it matches, if there is just one


def token_table(prog):
    """Ordered token kinds of TokenType, with the attributes the constructor of Token stores."""
    cls = prog.cls(LEX + ".TokenType")
    tok = prog.cls(LEX + ".Token")
    init = tok.methods.get("__init__")
    if init is None:
        raise AnalysisBroken("Token has no constructor")
    names = [a.arg for a in init.node.args.args][1:] + [a.arg for a in init.node.args.kwonlyargs]
    defaults = {}
    a = init.node.args
    for p, d in list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)) + [x for x in zip(a.kwonlyargs, a.kw_defaults) if x[1] is not None]:
        defaults[p.arg] = fold(prog, tok.module, d)
    stored = {}
    for s in ast.walk(init.node):
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]:
                    stored[t.attr] = s.value
    out = []
    order = []
    for n in cls.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and not n.targets[0].id.startswith("_"):
            order.append((n.targets[0].id, n.value, n))
    for name, v, n in order:
        if not (isinstance(v, ast.Call) and prog.resolve_expr(cls.module, v.func) == LEX + ".Token"):
            continue
        scope = {k.targets[0].id: k.value for k in cls.node.body if isinstance(k, ast.Assign) and isinstance(k.targets[0], ast.Name)}
        args = {}
        try:
            for p, x in zip(names, v.args):
                args[p] = fold(prog, cls.module, x, 0, scope)
            for k in v.keywords:
                args[k.arg] = fold(prog, cls.module, k.value, 0, scope)
        except NotConst as e:
            raise AnalysisBroken("cannot fold token %s: %s" % (name, e))
        vals = dict(defaults)
        vals.update(args)
        attrs = {}
        regex = None
        for field, e in stored.items():
            if isinstance(e, ast.Name) and e.id in vals:
                attrs[field] = vals[e.id]
            elif isinstance(e, ast.Constant):
                attrs[field] = e.value
            elif isinstance(e, ast.Call) and prog.resolve_expr(tok.module, e.func) == "re.compile" and e.args and isinstance(e.args[0], ast.Name):
                if len(e.args) > 1 or e.keywords:
                    raise AnalysisBroken("regular expression flags in Token")
                regex = vals.get(e.args[0].id)
                attrs[field] = ("re", regex)
        if not isinstance(regex, str):
            raise AnalysisBroken("token %s has no regular expression" % name)
        out.append(Tok(name, regex, attrs, n, len(out)))
    if len(out) < 20:
        raise AnalysisBroken("token table not found")
    return out


def truth(v):
    return bool(v) if not (isinstance(v, tuple) and v and v[0] in ("member", "re")) else True
