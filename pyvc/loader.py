"""Loads the checked tree's modules with mechanical instrumentation.

The source of /repo is read on every run.  The rewriting is local and keeps
every statement: `for` loops get hooks at the start of each iteration and
after the loop, comprehensions and dict displays are turned into calls with
the same element expressions, `/`, `**` and float literals become exact, and
the modules see builtins that accept symbolic operands.  On concrete operands
each replacement is the operation it replaces (over exact rationals).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from pyvc import coll, core

REPO = os.environ.get('VERIF_REPO', '/repo')


def _assigned(body):
    """Names assigned by plain statements of a loop body."""
    names = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ClassDef(self, n):
            names.append(n.name)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                names.append(n.id)
    v = V()
    for s in body:
        v.visit(s)
    out = []
    for n in names:
        if n not in out:
            out.append(n)
    return out


def _targets(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0          # function nesting
        self.loops = []         # enclosing loop variables, innermost last
        self.n = 0
        self.is_gen = False

    def call(self, fn, *args):
        return ast.Call(
            func=ast.Attribute(value=ast.Name(id='__vc__', ctx=ast.Load()),
                               attr=fn, ctx=ast.Load()),
            args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        saved = self.loops
        self.loops = []
        self.depth += 1
        node.body = self._block(node.body)
        self.depth -= 1
        self.loops = saved
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Call(self, node):
        self.generic_visit(node)
        for a in node.args:
            if isinstance(a, ast.Starred):
                a.value = self.call('star', a.value)
        return node

    def visit_Lambda(self, node):
        saved = self.loops
        self.loops = []
        self.generic_visit(node)
        self.loops = saved
        return node

    def visit_ClassDef(self, node):
        saved, d = self.loops, self.depth
        self.loops, self.depth = [], 0
        self.generic_visit(node)
        self.loops, self.depth = saved, d
        return node

    def _block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_For(self, node):
        if self.depth == 0:
            self.generic_visit(node)
            return node
        self.n += 1
        var = '__vc_it%d' % self.n
        iter_ = self.visit(node.iter)
        names = [n for n in _assigned(node.body)
                 if n not in _targets(node.target)
                 and not n.startswith('__vc_')]
        self.loops.append(var)
        body = self._block(node.body)
        self.loops.pop()
        orelse = self._block(node.orelse)
        load = ast.Name(id=var, ctx=ast.Load())
        getters = ast.Tuple(elts=[
            ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
                defaults=[]), body=ast.Name(id=n, ctx=ast.Load()))
            for n in names], ctx=ast.Load())
        nm = ast.Tuple(elts=[ast.Constant(n) for n in names], ctx=ast.Load())

        def assign(method):
            val = ast.Call(func=ast.Attribute(value=load, attr=method,
                                              ctx=ast.Load()),
                           args=[], keywords=[])
            if not names:
                return ast.Expr(val)
            return ast.Assign(targets=[ast.Tuple(elts=[
                ast.Name(id=n, ctx=ast.Store()) for n in names],
                ctx=ast.Store())], value=val)
        setup = ast.Assign(targets=[ast.Name(id=var, ctx=ast.Store())],
                           value=self.call('loop', iter_, getters, nm))
        # the target is assigned by the for statement before begin() runs
        loop = ast.For(target=node.target, iter=load,
                       body=[assign('begin')] + body, orelse=orelse)
        return [setup, loop, assign('end')]

    def visit_Return(self, node):
        self.generic_visit(node)
        if self.loops:
            node.value = self.call(
                'ret', node.value or ast.Constant(None),
                *[ast.Name(id=v, ctx=ast.Load()) for v in self.loops])
        return node

    def visit_Yield(self, node):
        self.generic_visit(node)
        if self.loops:
            node.value = ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id=self.loops[-1], ctx=ast.Load()),
                    attr='tag', ctx=ast.Load()),
                args=[node.value or ast.Constant(None)], keywords=[])
        return node

    # comprehensions: f(x) lists the results for one item of the first
    # iterable
    def _comp(self, node, kind, elt):
        if any(g.is_async for g in node.generators):
            return node
        first = node.generators[0]
        it = self.visit(first.iter)
        self.n += 1
        arg = '__vc_x%d' % self.n
        inner = ast.ListComp(
            elt=elt,
            generators=[ast.comprehension(
                target=first.target,
                iter=ast.Tuple(elts=[ast.Name(id=arg, ctx=ast.Load())],
                               ctx=ast.Load()),
                ifs=first.ifs, is_async=0)] + node.generators[1:])
        # rewrite inside, but leave the outer one-element comprehension
        saved = self.loops
        self.loops = []
        inner.elt = self.visit(inner.elt)
        for i, g in enumerate(inner.generators):
            g.ifs = [self.visit(x) for x in g.ifs]
            if i > 0:
                g.iter = self.call('raw_checked', self.visit(g.iter))
        self.loops = saved
        lam = ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=arg)], kwonlyargs=[],
            kw_defaults=[], defaults=[]), body=inner)
        return self.call(kind, it, lam)

    def visit_ListComp(self, node):
        if self.depth == 0:
            return node
        return self._comp(node, 'listcomp', node.elt)

    def visit_SetComp(self, node):
        if self.depth == 0:
            return node
        return self._comp(node, 'setcomp', node.elt)

    def visit_GeneratorExp(self, node):
        if self.depth == 0:
            return node
        return self._comp(node, 'gen', node.elt)

    def visit_DictComp(self, node):
        if self.depth == 0:
            return node
        return self._comp(node, 'dictcomp', ast.Tuple(
            elts=[node.key, node.value], ctx=ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self.call('mkdict', *[
            ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)])

    def visit_Set(self, node):
        self.generic_visit(node)
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        return self.call('mkset', *node.elts)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self.call('div', node.left, node.right)
        if isinstance(node.op, ast.Pow):
            return self.call('power', node.left, node.right)
        return node

    def _guard(self, node, target):
        """Updates of attributes in loops are guarded."""
        if not self.loops or not isinstance(target, ast.Attribute):
            return node
        return [ast.Expr(ast.Call(
            func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()),
                               attr='attr', ctx=ast.Load()),
            args=[], keywords=[])) for v in self.loops] + [node]

    def visit_Assign(self, node):
        self.generic_visit(node)
        for t in node.targets:
            if isinstance(t, ast.Attribute) and \
                    isinstance(t.value, ast.Name) and t.value.id == 'self':
                return self._guard(node, t)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Attribute):
            return self._guard(node, node.target)
        if isinstance(node.op, (ast.Div, ast.Pow)) and \
                isinstance(node.target, ast.Name):
            fn = 'div' if isinstance(node.op, ast.Div) else 'power'
            return ast.Assign(
                targets=[node.target],
                value=self.call(fn, ast.Name(id=node.target.id,
                                             ctx=ast.Load()), node.value))
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return self.call('lit', node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


class VC(object):
    loop = staticmethod(coll.loop)
    ret = staticmethod(coll.ret)
    gen = staticmethod(coll.gen)
    listcomp = staticmethod(coll.listcomp)
    setcomp = staticmethod(coll.setcomp)
    dictcomp = staticmethod(coll.dictcomp)
    mkdict = staticmethod(coll.mkdict)
    mkset = staticmethod(coll.mkset)
    star = staticmethod(coll.star)
    div = staticmethod(core.div)
    power = staticmethod(core.power)

    @staticmethod
    def raw_checked(it):
        for x in coll.raw(it):
            if isinstance(x, coll.GenItem):
                raise core.Unsupported('nested symbolic comprehension')
            yield x

    @staticmethod
    def lit(x):
        import math
        from pyvc import algebra
        if math.isinf(x) or math.isnan(x):
            return x
        f = algebra.to_fraction(x)
        return int(f) if f.denominator == 1 else f


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, 'rb') as f:
            data = f.read()
        return self.source_to_code(data, path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__['__builtins__'] = coll.BUILTINS
        module.__dict__['__vc__'] = VC
        code = self.get_code(module.__name__)
        exec(code, module.__dict__)
        for k, v in list(module.__dict__.items()):
            try:
                if v in coll.REPLACE_MODULES:
                    module.__dict__[k] = coll.REPLACE_MODULES[v]
                    continue
            except TypeError:
                pass
            for old, new in coll.REPLACE_VALUES:
                if v is old:
                    module.__dict__[k] = new


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots      # {top-level package: directory}

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        for p, pkg in ((os.path.join(base, '__init__.py'), True),
                       (base + '.py', False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=Loader(name, p),
                    submodule_search_locations=[base] if pkg else None)
        return None


def install_symbolic():
    """Make `forecaster` and the contracts import instrumented."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.meta_path.insert(0, Finder({'forecaster': REPO, 'contracts': here}))


def install_plain():
    """Make `forecaster` import from the checked tree, unmodified."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    for p in (REPO, here):
        if p not in sys.path:
            sys.path.insert(0, p)
