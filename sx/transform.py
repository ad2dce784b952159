"""AST transformation and import hook: /repo sources are re-read, transformed and compiled on every run."""
import ast
import importlib.abc
import importlib.util
import os
import sys
from . import models

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__'}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(fn, *args):
    return ast.Call(func=name(fn), args=list(args), keywords=[])


PURE = (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.UnaryOp, ast.BoolOp, ast.BinOp, ast.Load, ast.cmpop,
        ast.unaryop, ast.boolop, ast.operator, ast.expr_context)


def is_pure(n):
    return all(isinstance(x, PURE) for x in ast.walk(n))


def lam(body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def has_scope_hazard(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n))


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.class_body = [False]

    def fresh(self):
        self.n += 1
        return '__sx_t%d' % self.n

    def visit_ClassDef(self, node):
        self.class_body.append(True)
        node = self.generic_visit(node)
        self.class_body.pop()
        return node

    def visit_FunctionDef(self, node):
        self.class_body.append(False)
        node = self.generic_visit(node)
        self.class_body.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.class_body.append(False)
        node = self.generic_visit(node)
        self.class_body.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def counted(self, node):
        """sum(const for x in s if test), len([.. for x in s if test]) as sums that do not fork; None if it is something else"""
        if not (isinstance(node.func, ast.Name) and node.func.id in ('sum', 'len') and len(node.args) == 1 and not node.keywords):
            return None
        g = node.args[0]
        if node.func.id == 'sum':
            if not isinstance(g, (ast.GeneratorExp, ast.ListComp)) or not (isinstance(g.elt, ast.Constant) and type(g.elt.value) is int):
                return None
            v = g.elt.value
        else:
            if not isinstance(g, ast.ListComp) or not isinstance(g.elt, (ast.Name, ast.Constant)):
                return None
            v = 1
        last = g.generators[-1]
        if not last.ifs or any(c.is_async for c in g.generators):
            return None
        test = self.visit(last.ifs[0])
        for e in last.ifs[1:]:
            test = call('__sx_and__', test, lam(self.visit(e)), ast.Constant(False))
        last.ifs = []
        gens = [self.visit(c) for c in g.generators]
        elt = call('__sx_tally__', call('__sx_tv__', test), ast.Constant(True), ast.Constant(0), ast.Constant(v))
        return ast.Call(func=name('__sx_sum__'), args=[ast.GeneratorExp(elt=elt, generators=gens)], keywords=[])

    def visit_Call(self, node):
        c = self.counted(node)
        if c is not None:
            return c
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        node = self.generic_visit(node)
        return ast.Call(func=name('__sx_call__'), args=[node.func] + node.args, keywords=node.keywords)

    def slice_expr(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(func=name('__sx_slice__'), args=[s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                                                              s.step or ast.Constant(None)], keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple(elts=[self.slice_expr(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call('__sx_getitem__', node.value, self.slice_expr(node.slice))
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            return ast.Expr(call('__sx_setitem2__', node.value, self.visit(t.value), self.slice_expr(self.visit(t.slice))))
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            t = node.target
            opn = {'Add': 'iadd', 'Sub': 'isub', 'Mult': 'imul', 'Div': 'itruediv', 'FloorDiv': 'ifloordiv', 'Mod': 'imod',
                   'Pow': 'ipow', 'LShift': 'ilshift', 'RShift': 'irshift', 'BitOr': 'ior', 'BitXor': 'ixor',
                   'BitAnd': 'iand', 'MatMult': 'imatmul'}[type(node.op).__name__]
            return ast.Expr(call('__sx_augsub__', self.visit(t.value), self.slice_expr(self.visit(t.slice)),
                                 ast.Constant(opn), self.visit(node.value)))
        return self.generic_visit(node)

    def visit_Delete(self, node):
        node = self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(call('__sx_delitem__', t.value, self.slice_expr(t.slice))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if not node.keys:
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        elts = [ast.Tuple(elts=[k if k is not None else name('__sx_unpack__'), v], ctx=ast.Load())
                for k, v in zip(node.keys, node.values)]
        return call('__sx_dict__', ast.List(elts=elts, ctx=ast.Load()))

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        return call('__sx_dict__', ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                                                generators=node.generators))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return call('__sx_set__', ast.List(elts=node.elts, ctx=ast.Load()))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        return call('__sx_set__', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_comprehension(self, node):
        node = self.generic_visit(node)
        node.ifs = [self.truth(i) for i in node.ifs]
        return node

    def truth(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == '__sx_truth__':
            return e
        return call('__sx_truth__', e)

    def tallies(self, body):
        return bool(body) and all(isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub))
                                  and isinstance(x.value, ast.Constant) and type(x.value.value) is int for x in body)

    def visit_If(self, node):
        # `if test: n += 1` does not fork: n becomes n + ite(test, 1, 0)
        if not self.class_body[-1] and self.tallies(node.body) and (not node.orelse or self.tallies(node.orelse)):
            cell = self.fresh()
            out = [ast.Assign(targets=[ast.Name(id=cell, ctx=ast.Store())], value=call('__sx_tv__', self.visit(node.test)))]
            for arm, sign in ((node.body, True), (node.orelse, False)):
                for x in arm:
                    v = x.value.value if isinstance(x.op, ast.Add) else -x.value.value
                    out.append(ast.If(test=call('__sx_may__', name(cell), ast.Constant(sign)), orelse=[], body=[
                        ast.Assign(targets=[ast.Name(id=x.target.id, ctx=ast.Store())],
                                   value=call('__sx_tally__', name(cell), ast.Constant(sign), name(x.target.id), ast.Constant(v)))]))
            return [ast.copy_location(x, node) for x in out]
        return self.visit_Test(node)

    def visit_Test(self, node):
        node = self.generic_visit(node)
        node.test = self.truth(node.test)
        return node

    visit_While = visit_Test
    visit_IfExp = visit_Test
    visit_Assert = visit_Test

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return call('__sx_not__', node.operand)
        return node

    def visit_BoolOp(self, node):
        hazard = self.class_body[-1] or any(has_scope_hazard(v) for v in node.values)
        pures = [is_pure(v) for v in node.values]
        node = self.generic_visit(node)
        if hazard:
            return node
        fn = '__sx_and__' if isinstance(node.op, ast.And) else '__sx_or__'
        acc = node.values[0]
        for v, p in zip(node.values[1:], pures[1:]):
            acc = call(fn, acc, lam(v), ast.Constant(p))
        return acc

    def one(self, op, a, b):
        if isinstance(op, ast.Eq):
            return call('__sx_eq__', a, b)
        if isinstance(op, ast.NotEq):
            return call('__sx_ne__', a, b)
        if isinstance(op, ast.In):
            return call('__sx_in__', a, b)
        if isinstance(op, ast.NotIn):
            return call('__sx_not__', call('__sx_in__', a, b))
        if isinstance(op, ast.Is):
            return call('__sx_is__', a, b)
        if isinstance(op, ast.IsNot):
            return call('__sx_not__', call('__sx_is__', a, b))
        return ast.Compare(left=a, ops=[op], comparators=[b])

    def visit_Compare(self, node):
        hazard = self.class_body[-1] or has_scope_hazard(node)
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            return self.one(node.ops[0], node.left, node.comparators[0])
        if hazard:
            return node
        # chained: evaluate operands left to right, each once, in lambdas sharing cells through a list
        ops = [node.left] + node.comparators
        simple = all(isinstance(o, (ast.Name, ast.Constant, ast.Attribute)) for o in ops)
        if simple:
            ths = [lam(self.one(op, ops[i], ops[i + 1])) for i, op in enumerate(node.ops)]
            return call('__sx_chain__', ast.List(elts=ths, ctx=ast.Load()))
        cell = self.fresh()
        # (lambda cell: chain([lambda: one(cell.append(a) or cell[-1], ...)]))
        def put(e):
            return call('__sx_put__', name(cell), e)

        def last():
            return call('__sx_last__', name(cell))
        ths = [lam(self.one(node.ops[0], put(ops[0]), put(ops[1])))]
        for i in range(1, len(node.ops)):
            ths.append(lam(self.one(node.ops[i], last(), put(ops[i + 1]))))
        body = call('__sx_chain__', ast.List(elts=ths, ctx=ast.Load()))
        return ast.Call(func=ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=cell)], kwonlyargs=[],
                                                          kw_defaults=[], defaults=[]), body=body),
                        args=[ast.List(elts=[], ctx=ast.Load())], keywords=[])


def put(cell, v):
    cell.append(v)
    return v


def last(cell):
    return cell[-1]


def setitem2(v, o, k):
    models.sx_setitem(o, k, v)


def may(c, sign):
    return c is sign if type(c) is bool else True


def tally(c, sign, x, v):
    """x + v where c is `sign`, x elsewhere"""
    if type(c) is bool or not (type(x) is int or type(x) is models.SymInt):
        return x + v if models.truth(c) is sign else x
    a, b = (v, 0) if sign else (0, v)
    return x + models.core.ite_int(c.t, a, b)


NS = dict(models.EXPORTS)
NS.update({'__sx_slice__': slice, '__sx_put__': put, '__sx_last__': last, '__sx_setitem2__': setitem2,
           '__sx_tv__': models.truth_value, '__sx_may__': may, '__sx_tally__': tally, '__sx_sum__': models.m_sum})


def transform_source(src, path):
    tree = ast.parse(src, path)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads the packages in `roots` ({package: directory containing it}) through the transformer."""

    def __init__(self, roots):
        self.roots = roots
        self.loaded = {}

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(fullname, p, loader=self,
                                                              submodule_search_locations=[base] if pkg else None)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        with open(path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__.update(NS)
        self.loaded[module.__name__] = path
        exec(transform_source(src, path), module.__dict__)


def install(roots):
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
