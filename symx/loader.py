"""Loads the current source of /repo/dorado into a fresh namespace."""
import builtins
import os
import sys
import types
import importlib

REPO = os.environ.get('DORADO_REPO', '/repo')
PKG = os.path.join(REPO, 'dorado')
_code = {}


def get_code(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    c = _code.get(path)
    if c is None or c[0] != key:
        with open(path, 'r') as f:
            src = f.read()
        _code[path] = c = (key, compile(src, path, 'exec',
                                        dont_inherit=True))
    return c[1]


class World(object):
    """one fresh instance of the package"""

    def __init__(self, stubs, over_builtins):
        self.mods = {}
        self.stubs = stubs          # dotted name -> module-like
        self.builtins = dict(builtins.__dict__)
        self.builtins.update(over_builtins)
        self.builtins['__import__'] = self._import

    def load(self, name):
        """name: dotted within dorado, '' for the package"""
        full = 'dorado' + ('.' + name if name else '')
        m = self.mods.get(full)
        if m is not None:
            return m
        base = os.path.join(PKG, *name.split('.')) if name else PKG
        if name == '' or os.path.isdir(base):
            path = os.path.join(base, '__init__.py')
            ispkg = True
        else:
            path = base + '.py'
            ispkg = False
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named '%s'" % full)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__package__ = full if ispkg else full.rpartition('.')[0]
        if ispkg:
            m.__path__ = [base]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[full] = m
        if name == '':
            # the package object is a namespace; its __init__ imports all
            m.__class__ = _LazyPkg
            m.__dict__['_world'] = self
            return m
        exec(get_code(path), m.__dict__)
        parent, _, leaf = full.rpartition('.')
        if parent in self.mods:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = (globals or {}).get('__package__') or 'dorado'
            parts = pkg.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            name = '.'.join(parts) + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'dorado':
            sub = name[7:]
            pkg = self.load('')
            mod = self.load(sub) if sub else pkg
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(mod, f) and \
                            getattr(mod, '__path__', None):
                        try:
                            self.load((sub + '.' if sub else '') + f)
                        except ModuleNotFoundError:
                            pass
                return mod
            return pkg
        if name in self.stubs or top in self.stubs:
            m = self.stubs.get(name)
            if m is None:
                m = self.stubs[top]
                for p in name.split('.')[1:]:
                    m = getattr(m, p)
            if fromlist:
                return m
            t = self.stubs.get(top)
            if t is None:
                t = importlib.import_module(top)
                t = _Overlay(t, name, m)
            return t
        return importlib.__import__(name, globals, locals, fromlist, 0)


class _Overlay(types.ModuleType):
    """real top module with one stubbed submodule"""

    def __init__(self, real, name, sub):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__[name.split('.')[1]] = sub

    def __getattr__(self, n):
        return getattr(self._real, n)


class _LazyPkg(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        w = self.__dict__['_world']
        if n in ('setup_logging', 'logger'):
            return getattr(w.load('logging_config'), n)
        try:
            return w.load(n)
        except ModuleNotFoundError:
            raise AttributeError(n)
