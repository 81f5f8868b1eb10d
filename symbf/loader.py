"""Load /repo's package twice: the real one, and an instance executed over symbolic values."""
import ast
import os
import sys
import types
import importlib
import importlib.abc
import importlib.util

REPO = os.environ.get('BF_REPO', '/repo')
SRC = os.path.join(REPO, 'BayesicFitting', 'source')
SYM = 'SymBF'
_state = {}


class _Stores(ast.NodeTransformer):
    """a[i] = v  ->  __symset__(v, a, i): object arrays need tuples unpacked as float arrays do it"""

    def slice(self, n):
        if isinstance(n, ast.Slice):
            args = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
            return ast.Call(ast.Name('slice', ast.Load()), args, [])
        if isinstance(n, ast.Tuple):
            return ast.Tuple([self.slice(x) for x in n.elts], ast.Load())
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            e = ast.Expr(ast.Call(ast.Name('__symset__', ast.Load()), [n.value, t.value, self.slice(t.slice)], []))
            return ast.fix_missing_locations(ast.copy_location(e, n))
        return n

    def visit_Expr(self, n):
        """print( ... ): what is printed of a symbol is not looked at"""
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'print':
            a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            e = ast.Expr(ast.Call(ast.Name('__symprint__', ast.Load()), [ast.Lambda(a, v)], []))
            return ast.fix_missing_locations(ast.copy_location(e, n))
        return n


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = _Stores().visit(ast.parse(src, self.path))
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = _state['builtins']
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != SYM and not fullname.startswith(SYM + '.'):
            return None
        rel = fullname.split('.')[1:]
        p = os.path.join(SRC, *rel)
        if os.path.isdir(p):
            init = os.path.join(p, '__init__.py')
            sp = importlib.util.spec_from_loader(fullname, _Loader(init), is_package=True)
            sp.submodule_search_locations = [p]
            return sp
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_loader(fullname, _Loader(p + '.py'))
        return None


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    shims = _state['shims']
    if level == 0:
        if name.split('.')[0] == 'BayesicFitting':
            rest = name.split('.')[1:]
            if rest[:1] == ['source']:
                rest = rest[1:]
            name = '.'.join([SYM] + rest)
            m = importlib.import_module(name)
            return m if fromlist else sys.modules[SYM]
        if name in shims:
            if fromlist or '.' not in name:
                return shims[name]
            return shims[name.split('.')[0]]
        if name.split('.')[0] in ('numpy', 'scipy', 'math') and not fromlist and name.split('.')[0] in shims:
            __import__(name)
            return shims[name.split('.')[0]]
        if name.split('.')[0] == 'matplotlib':
            return _Null(name)
    return _state['orig'](name, globals, locals, fromlist, level)


class _Null(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Null(n)

    def __call__(self, *a, **k):
        return self


def load():
    """-> (symbolic package, real package, shims)"""
    if 'sym' in _state:
        return _state['sym'], _state['real'], _state['shims']
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    from . import shim
    _state['orig'] = __import__
    _state['shims'] = shim.build()
    _state['builtins'] = shim.make_builtins(_import)
    sys.path.insert(0, REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        real = importlib.import_module('BayesicFitting')
    assert os.path.realpath(real.__file__).startswith(os.path.realpath(REPO)), real.__file__
    sys.meta_path.insert(0, _Finder())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sym = importlib.import_module(SYM)
    _state['sym'] = sym
    _state['real'] = real
    return sym, real, _state['shims']
