# -*- coding: utf-8 -*-
"""Source instrumentation: every operation that would force a symbolic value to a
concrete one is routed through sx.calls."""
import ast

_SKIP_CALLS = {'__sx_yield__', 'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec',
               '__sx_call__'}


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # -- functions: record which code is executed ----------------------------
    def _function(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        qual = '.'.join(self.stack)
        self.stack.pop()
        mark = ast.Expr(ast.Call(
            func=ast.Attribute(value=_n('__sx_seen__'), attr='add', ctx=ast.Load()),
            args=[ast.Constant(self.mod + ':' + qual)], keywords=[]))
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        node.body = body[:i] + [mark] + body[i:]
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        return node

    # -- expressions -----------------------------------------------------------
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in _SKIP_CALLS:
            if not (node.func.id == 'super' and node.args):
                return node
        return ast.Call(func=_n('__sx_call__'), args=[node.func] + node.args,
                        keywords=node.keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        name = {ast.Eq: '__sx_eq__', ast.NotEq: '__sx_ne__',
                ast.In: '__sx_in__', ast.NotIn: '__sx_notin__'}.get(type(op))
        if type(op) in (ast.Is, ast.IsNot) and any(
                isinstance(x, ast.Constant) and type(x.value) is bool
                for x in (node.left, node.comparators[0])):
            name = '__sx_is__' if type(op) is ast.Is else '__sx_isnot__'
        if name is None:
            return node
        return ast.Call(func=_n(name), args=[node.left, node.comparators[0]], keywords=[])

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.Call(func=_n('__sx_not__'), args=[node.operand], keywords=[])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=_n('__sx_mod__'), args=[node.left, node.right], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec
                spec = self.visit(spec) if spec is not None else ast.Constant(None)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion),
                                             spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.Call(func=_n('__sx_fstr__'), args=parts, keywords=[])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(func=_n('__sx_set__'),
                        args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(func=_n('__sx_set__'),
                        args=[ast.ListComp(elt=node.elt, generators=node.generators)],
                        keywords=[])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Starred(
                        value=ast.Call(func=ast.Attribute(value=v, attr='items', ctx=ast.Load()),
                                       args=[], keywords=[]), ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        else:
            parts = [ast.Tuple(elts=[k, v], ctx=ast.Load())
                     for k, v in zip(node.keys, node.values)]
        return ast.Call(func=_n('__sx_dict__'),
                        args=[ast.List(elts=parts, ctx=ast.Load())], keywords=[])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.Call(
            func=_n('__sx_dict__'),
            args=[ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                               generators=node.generators)], keywords=[])

    def visit_Try(self, node):
        self.generic_visit(node)
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException'):
                node.handlers.insert(0, ast.ExceptHandler(
                    type=_n('__sx_Control__'), name=None, body=[ast.Raise()]))
                break
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [self.visit(d) if d is not None else None for d in node.kw_defaults]
        return node

    def visit_match_case(self, node):
        node.body = [self.visit(s) for s in node.body]
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        return node


YIELDS = False       # points where threads may switch (sched_threads.py)


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    if YIELDS and modname.split('.')[0] == 'pymorphy2':
        import sched_threads
        tree = sched_threads.add_yields(tree)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
