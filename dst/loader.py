"""Load the agent from the repository's current source, with a yield point before every statement of every function."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get('DST_REPO', '/repo')
ROOT = os.path.join(REPO, 'src', 'deep')

SITES = []          # index -> (file relative to ROOT, line, qualname, is_entry)
ENTRY = set()
_CODE = {}          # path -> code object


class _Instr(ast.NodeTransformer):
    def __init__(self, rel):
        self.rel = rel
        self.stack = []
        self.fn = 0

    def _site(self, node, entry=False):
        n = len(SITES)
        SITES.append((self.rel, getattr(node, 'lineno', 0), '.'.join(self.stack), entry))
        if entry:
            ENTRY.add(n)
        return n

    def _call(self, n, node, name='__dst__', *more):
        c = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[ast.Constant(value=n), *more], keywords=[])
        ast.copy_location(c, node)
        for x in ast.walk(c):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, node)
        return c

    def _stmts(self, body, entry=False):
        out = []
        first = True
        for i, st in enumerate(body):
            if i == 0 and entry and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) \
                    and isinstance(st.value.value, str):
                out.append(st)
                continue
            if isinstance(st, (ast.Global, ast.Nonlocal)):
                out.append(st)
                continue
            n = self._site(st, entry and first)
            first = False
            e = ast.Expr(value=self._call(n, st))
            ast.copy_location(e, st)
            out.append(e)
            out.append(self.visit(st))
        return out

    def _function(self, node):
        self.stack.append(node.name)
        self.fn += 1
        node.decorator_list = node.decorator_list
        node.body = self._stmts(node.body, True)
        self.fn -= 1
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        fn, self.fn = self.fn, 0
        node.body = [self.visit(s) for s in node.body]
        self.fn = fn
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        return node

    def generic_visit(self, node):
        if self.fn:
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(node, f, self._stmts(v))
            if isinstance(node, ast.Try):
                for h in node.handlers:
                    h.body = self._stmts(h.body)
            if isinstance(node, ast.Match):
                for c in node.cases:
                    c.body = self._stmts(c.body)
            for f, v in ast.iter_fields(node):
                if f in ('body', 'orelse', 'finalbody', 'handlers', 'cases', 'annotation', 'returns'):
                    if isinstance(v, ast.expr) and f == 'body':
                        setattr(node, f, self.visit(v))
                    continue
                if isinstance(v, ast.expr):
                    setattr(node, f, self.visit(v))
                elif isinstance(v, list):
                    setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
                elif isinstance(v, ast.AST) and not isinstance(v, (ast.expr_context, ast.operator)):
                    setattr(node, f, self.visit(v))
            return node
        return super().generic_visit(node)

    def visit_AugAssign(self, node):
        if not self.fn:
            return node
        node = self.generic_visit(node)
        if isinstance(node.target, (ast.Attribute, ast.Subscript)):
            n = self._site(node)
            node.value = self._call(n, node, '__dst2__', node.value)
        return node

    def visit_BoolOp(self, node):
        if not self.fn:
            return node
        node = self.generic_visit(node)
        node.values = [node.values[0]] + [self._guard(v) for v in node.values[1:]]
        return node

    def _guard(self, v):
        for x in ast.walk(v):
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return v
        e = ast.BoolOp(op=ast.Or(), values=[self._call(self._site(v), v), v])
        return ast.copy_location(e, v)

    def _comp(self, node):
        if not self.fn:
            return node
        node = self.generic_visit(node)
        if hasattr(node, 'elt'):
            node.elt = self._guard(node.elt)
        else:
            node.value = self._guard(node.value)
        return node

    visit_ListComp = _comp
    visit_SetComp = _comp
    visit_GeneratorExp = _comp
    visit_DictComp = _comp


def _compile(path):
    code = _CODE.get(path)
    if code is None:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = _Instr(os.path.relpath(path, ROOT)).visit(tree)
        ast.fix_missing_locations(tree)
        code = _CODE[path] = compile(tree, path, 'exec', dont_inherit=True)
    return code


def precompile():
    """Compile everything in a fixed order, so that site numbers are a function of the source tree."""
    for d, dirs, files in os.walk(ROOT):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                _compile(os.path.join(d, f))


class Loader(importlib.abc.Loader):
    def __init__(self, path, builtins_dict):
        self.path = path
        self.b = builtins_dict

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = self.b
        exec(_compile(self.path), module.__dict__)

    def get_filename(self, name=None):
        return self.path

    def get_source(self, name=None):
        with open(self.path, encoding='utf-8') as f:
            return f.read()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, builtins_dict):
        self.b = builtins_dict

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'deep' and not fullname.startswith('deep.'):
            return None
        rel = fullname.split('.')[1:]
        base = os.path.join(ROOT, *rel)
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            p, pkg = init, True
        elif os.path.isfile(base + '.py'):
            p, pkg = base + '.py', False
        else:
            return None
        spec = importlib.machinery.ModuleSpec(fullname, Loader(p, self.b), origin=p, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [base]
        return spec


def install(builtins_dict):
    for k in [k for k in sys.modules if k == 'deep' or k.startswith('deep.')]:
        del sys.modules[k]
    sys.meta_path.insert(0, Finder(builtins_dict))


def all_modules():
    out = []
    for d, dirs, files in os.walk(ROOT):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), ROOT)[:-3].split(os.sep)
                if rel[-1] == '__init__':
                    rel = rel[:-1]
                out.append('.'.join(['deep'] + rel))
    return out


def site_name(n):
    if 0 <= n < len(SITES):
        rel, line, q, _ = SITES[n]
        return '%s:%s(%s)' % (rel, line, q)
    return {-1: 'thread start', -2: 'thread spawn', -3: 'sleep(0)', -4: 'lock acquire', -5: 'lock release',
            -10: 'host event', -11: 'host event done', -20: 'network'}.get(n, 'site %s' % n)
