"""Imports a rule module so that a part it cannot apply to the present form of the code (an exception inside one
iteration of a loop) is recorded as an undecided obligation and the rest of the rule still runs."""
import ast, importlib.util, os, sys


MUTATE = {'append', 'add', 'extend', 'setdefault', 'update', 'insert', 'pop', 'remove', 'discard', 'clear'}


def collects(loop, fn):
    """the loop gathers data that is used after it: names of outside are changed in its body"""
    def targets(t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    inner = targets(loop.target)
    for x in ast.walk(loop):
        if isinstance(x, ast.Assign):
            inner |= {t.id for t in x.targets if isinstance(t, ast.Name)} | {y.id for t in x.targets if isinstance(t, (ast.Tuple, ast.List)) for y in t.elts if isinstance(y, ast.Name)}
    plain = {t.id for x in ast.walk(loop) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    if fn is not None:
        before = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and hasattr(x, 'lineno') and x.lineno < loop.lineno}
        after = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and hasattr(x, 'lineno') and x.lineno > loop.end_lineno}
        if plain & before & after:
            return True
    if loop.orelse:
        return True
    for x in ast.walk(loop):
        if isinstance(x, ast.AugAssign) or isinstance(x, ast.Return) and x.value is not None:
            return True
        base = None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATE:
            base = x.func.value
        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            base = x.value
        while isinstance(base, (ast.Subscript, ast.Attribute, ast.Call)):
            base = base.func if isinstance(base, ast.Call) else base.value
        if isinstance(base, ast.Name) and base.id not in inner and base.id != 'ctx':
            return True
    return False


class Wrap(ast.NodeTransformer):
    def __init__(self):
        self.ctx = [False]
        self.fn = None

    def visit_FunctionDef(self, n):
        own = any(a.arg == 'ctx' for a in n.args.args)
        # a helper that raises reports to its caller
        self.ctx.append(own or self.ctx[-1] and not any(isinstance(x, ast.Raise) for x in ast.walk(n)))
        fn, self.fn = self.fn, n
        self.generic_visit(n)
        self.fn = fn
        self.ctx.pop()
        if own and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            call = ast.Call(ast.Attribute(ast.Name('ctx', ast.Load()), 'scope', ast.Load()), [], [])
            doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
            n.body = doc + [ast.With([ast.withitem(call, None)], n.body[len(doc):] or [ast.Pass()])]
        return n

    def visit_Try(self, n):
        # exceptions in here are the business of the handlers
        self.ctx.append(False)
        n.body = [self.visit(x) for x in n.body]
        self.ctx.pop()
        n.handlers = [self.generic_visit(x) for x in n.handlers]
        n.orelse, n.finalbody = [self.visit(x) for x in n.orelse], [self.visit(x) for x in n.finalbody]
        return n

    def guarded(self, body, n, gathers=False):
        call = ast.Call(ast.Attribute(ast.Name('ctx', ast.Load()), 'guard', ast.Load()), [ast.Constant('line %d' % n.lineno), ast.Constant(gathers)], [])
        return ast.With([ast.withitem(call, None)], body)

    def visit_For(self, n):
        gathers = collects(n, self.fn)
        self.generic_visit(n)
        if not self.ctx[-1] or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        n.body = [self.guarded(n.body, n, gathers)]
        return self.guarded([n], n, gathers)


def load(name, directory):
    path = os.path.join(directory, name + '.py')
    tree = ast.fix_missing_locations(Wrap().visit(ast.parse(open(path).read(), path)))
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location('rules.' + name, path))
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m
