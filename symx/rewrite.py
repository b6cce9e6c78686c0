"""symx.rewrite -- source-to-source instrumentation of the code under test.

On every run the *current* source of the modules is parsed, operations whose native
implementation cannot be handed symbolic values (calls into C, `in`, `%`, f-strings,
subscripts, set/dict displays) are redirected to symx.rt, and the result is compiled
and executed.  Nothing is cached on disk."""
from __future__ import annotations
import ast
import importlib.abc
import importlib.machinery
import os
import sys

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', 'isinstance',
              'issubclass', 'hasattr', 'callable', 'iter', 'next', 'enumerate', 'zip', 'range',
              'cast', 'TypeVar', 'NewType', 'NamedTuple', 'id'}

RX = {'re': 'symx.rx'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # -- helpers
    def _sx(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name('_sx', ast.Load()), attr=name,
                                           ctx=ast.Load()), args=list(args), keywords=[])

    def _func(self, node):
        self.stack.append(node.name)
        qual = self.mod + '.' + '.'.join(self.stack)
        decos = node.decorator_list
        node.decorator_list = []
        returns, node.returns = node.returns, None
        saved = []
        for a in [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs,
                  node.args.vararg, node.args.kwarg]:
            if a is not None:
                saved.append((a, a.annotation))
                a.annotation = None
        self.generic_visit(node)
        node.decorator_list = decos
        node.returns = returns
        for a, ann in saved:
            a.annotation = ann
        enter = ast.Expr(self._sx('enter', ast.Constant(qual)))
        body = node.body
        i = 1 if body and isinstance(body[0], ast.Expr) and \
            isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        node.body = body[:i] + [enter] + body[i:]
        if node.name == '__bool__':
            for n in ast.walk(node):
                if isinstance(n, ast.Return) and n.value is not None:
                    n.value = self._sx('rbool', n.value)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(x) if not isinstance(x, list) else x for x in node.body]
        node.body = [y for x in node.body for y in (x if isinstance(x, list) else [x])
                     if y is not None]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        # keep the annotation untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        if not isinstance(node.target, ast.Name):
            node.target = self.visit(node.target)
            if isinstance(node.target, ast.AST) and node.value is None:
                return None
        return node

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name in RX:
                al2 = ast.alias(name=RX[al.name], asname=al.asname or al.name)
                out.append(ast.Import(names=[al2]))
            else:
                out.append(ast.Import(names=[al]))
        return [ast.copy_location(x, node) for x in out]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in RX:
            node.module = RX[node.module]
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(self._sx('tick')), node))
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in SKIP_CALLS:
            if node.func.id in ('TypeVar', 'NewType', 'NamedTuple'):
                return node
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=ast.Attribute(value=ast.Name('_sx', ast.Load()), attr='call',
                                        ctx=ast.Load()),
                     args=[node.func, *node.args], keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else \
                    self.visit(v.format_spec)
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(self._sx('fstr', *parts), node)

    _SETOPS = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
    _CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.LtE: '<=', ast.Lt: '<', ast.GtE: '>=',
            ast.Gt: '>'}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._sx('mod', node.left, node.right), node)
        op = self._SETOPS.get(type(node.op))
        if op and not isinstance(node.right, ast.Constant):
            return ast.copy_location(self._sx('setop', ast.Constant(op), node.left, node.right),
                                     node)
        return node

    def visit_AugAssign(self, node):
        # target must stay a store target; subscript targets on dicts with symbolic keys
        # are expanded
        if isinstance(node.target, ast.Subscript):
            node.value = self.visit(node.value)
            tgt = node.target
            # o[i] op= v   ->  _sx.augitem(o, i, lambda: ..)
            o, i = self.visit(tgt.value), self.visit(self._slice(tgt.slice))
            tmp_o, tmp_i = '_sx_o', '_sx_i'
            lam = ast.Lambda(args=_args(tmp_o, tmp_i), body=ast.Constant(None))
            pre = [ast.Assign([ast.Name(tmp_o, ast.Store())], o),
                   ast.Assign([ast.Name(tmp_i, ast.Store())], i),
                   ast.Assign([ast.Name('_sx_v', ast.Store())],
                              self._sx('getitem', ast.Name(tmp_o, ast.Load()),
                                       ast.Name(tmp_i, ast.Load()))),
                   ast.AugAssign(ast.Name('_sx_v', ast.Store()), node.op, node.value),
                   ast.Expr(self._sx('setitem', ast.Name(tmp_o, ast.Load()),
                                     ast.Name(tmp_i, ast.Load()),
                                     ast.Name('_sx_v', ast.Load())))]
            return [ast.copy_location(x, node) for x in pre]
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                [ast.Name(node.target.id, ast.Store())],
                self._sx('mod', ast.Name(node.target.id, ast.Load()), node.value)), node)
        if type(node.op) in self._SETOPS and isinstance(node.target, ast.Name) and \
                not isinstance(node.value, ast.Constant) and isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            return ast.copy_location(ast.Assign(
                [ast.Name(node.target.id, ast.Store())],
                self._sx('setop', ast.Constant(self._SETOPS[type(node.op)]),
                         ast.Name(node.target.id, ast.Load()), node.value)), node)
        return node

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.generic_visit(node)
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(
                    self._sx('contains', node.comparators[0], node.left), node) \
                    if _simple(node.left) or _simple(node.comparators[0]) else \
                    ast.copy_location(self._sx('contains_r', node.left, node.comparators[0]),
                                      node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(
                    self._sx('not_contains_r', node.left, node.comparators[0]), node)
            s = self._CMP.get(type(op))
            if s and not isinstance(node.left, ast.Constant) and \
                    not isinstance(node.comparators[0], ast.Constant):
                return ast.copy_location(
                    self._sx('compare', ast.Constant(s), node.left, node.comparators[0]), node)
            return node
        # chained: rewrite `a op b in c` only when an `in` occurs
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            parts = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left, [op], [right]))
                left = right
            if not all(_simple(c) for c in node.comparators[:-1]):
                raise SyntaxError('chained comparison with `in` over a complex operand')
            return self.visit(ast.copy_location(ast.BoolOp(ast.And(), parts), node))
        self.generic_visit(node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(ast.Name('slice', ast.Load()),
                            [s.lower or ast.Constant(None), s.upper or ast.Constant(None),
                             s.step or ast.Constant(None)], [])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            if isinstance(node.slice, ast.Slice):
                return node
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
                return node
            return ast.copy_location(self._sx('getitem', node.value, node.slice), node)
        self.generic_visit(node)
        return node

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if not isinstance(t.slice, ast.Slice):
                v = self.visit(node.value)
                return ast.copy_location(ast.Expr(self._sx(
                    'setitem_r', v, self.visit(t.value), self.visit(t.slice))), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(self._sx('delitem', self.visit(t.value),
                                             self.visit(t.slice))))
            else:
                if isinstance(t, ast.Subscript):
                    self.generic_visit(t)
                out.append(ast.Delete([t]))
        return [ast.copy_location(x, node) for x in out]

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            items.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.copy_location(self._sx('mkdict', *items), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(self._sx('mkset', *node.elts), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self._sx('mkdictcomp', gen), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._sx('mksetcomp',
                                          ast.GeneratorExp(node.elt, node.generators)), node)


def _simple(n):
    return isinstance(n, (ast.Name, ast.Constant))


def _args(*names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[],
                         kw_defaults=[], defaults=[])


def transform(source, modname, path):
    tree = ast.parse(source, path)
    tree = Rewriter(modname).visit(tree)
    # insert the import of the runtime after docstring and __future__ imports
    i = 0
    for j, st in enumerate(tree.body):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and j == 0:
            i = 1
        elif isinstance(st, ast.ImportFrom) and st.module == '__future__':
            i = j + 1
    tree.body.insert(i, ast.Import(names=[ast.alias(name='symx.rt', asname='_sx')]))
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        return transform(src, fullname, path)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top-level name: directory containing it}"""

    def __init__(self, roots, exclude=()):
        self.roots = roots
        self.exclude = set(exclude)
        self.loaded = []

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        if top not in self.roots or any(fullname == x or fullname.startswith(x + '.')
                                        for x in self.exclude):
            return None
        base = os.path.join(self.roots[top], *fullname.split('.'))
        for fn, ispkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.exists(fn):
                self.loaded.append(fn)
                return importlib.machinery.ModuleSpec(
                    fullname, Loader(fullname, fn), origin=fn, is_package=ispkg) \
                    if False else importlib.util.spec_from_file_location(
                        fullname, fn, loader=Loader(fullname, fn),
                        submodule_search_locations=[base] if ispkg else None)
        return None


def install(roots, exclude=()):
    import importlib.util
    from . import rt
    rt.install()
    sys.dont_write_bytecode = True
    f = Finder(roots, exclude)
    sys.meta_path.insert(0, f)
    return f
