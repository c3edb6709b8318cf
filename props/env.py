"""The outside world of the drivers and plots: a scratch directory, json,
the log and the drawing calls, all recorded (works in both modes)."""
import json as realjson
import os
import re
import shutil
import tempfile
import types
import numpy as np
from symx import core as C
from symx import nparr as A


class Log(object):
    """stands for the package logger"""
    level = 0
    handlers = ()
    name = 'dorado'

    def __init__(self):
        self.lines = []

    def _add(self, msg, *a, **k):
        self.lines.append(msg % a if a else str(msg))
    debug = info = warning = warn = error = critical = exception = _add

    def log(self, level, msg, *a, **k):
        self._add(msg, *a)

    def setLevel(self, x):
        pass

    def addHandler(self, x):
        pass

    def isEnabledFor(self, x):
        return True

    def getEffectiveLevel(self):
        return 0


def number(h, text):
    """the number written in a text"""
    text = text.strip()
    m = re.match(r'<sym(\d+)>', text)
    if m:
        return C.ctx().tokens[int(m.group(1))]
    return float(text.split()[0])


def snap(o):
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snap(v) for v in o]
    return o


def jsonable(o):
    """what json itself accepts, also for symbolic values"""
    if isinstance(o, dict):
        for k, v in o.items():
            jsonable(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            jsonable(v)
    elif isinstance(o, C.SymNum):
        if o.k == 'i' and not o.py:
            raise TypeError('Object of type int64 is not JSON serializable')
    elif isinstance(o, C.SymBool):
        pass
    elif isinstance(o, A.SymArray):
        raise TypeError('Object of type ndarray is not JSON serializable')
    else:
        realjson.dumps(o)


class _Scan(list):
    """what os.scandir gives, in a chosen order"""

    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __next__(self):
        if not self:
            raise StopIteration
        return self.pop(0)


class Env(object):
    """listing: the order in which a folder is listed (it is arbitrary)"""

    def __init__(self, h, cwd=False, listing='up'):
        self.h = h
        self.real = (os.listdir, os.scandir)
        self.listing = listing
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='symx'))
        self.old = None
        if cwd:
            self.old = os.getcwd()
            os.chdir(self.dir)
        self.docs = []
        self.log = Log()
        js = types.ModuleType('json')
        js.__dict__.update(realjson.__dict__)
        js.dump = self._dump
        js.dumps = self._dumps
        self.tables = {}
        w = h.make_world(extra={'json': js})
        w.load('logging_config').logger = self.log
        for n in ('load', 'loadtxt', 'genfromtxt'):
            w.np.__dict__[n] = self._load
        self.w = w

    def _order(self, names, key=None):
        names = sorted(names, key=key)
        if self.listing == 'down':
            names.reverse()
        elif self.listing == 'mixed':
            names = names[1::2] + names[::2]
        return names

    def _mine(self, p):
        try:
            p = os.path.realpath(os.fspath(p))
        except TypeError:
            return False
        return isinstance(p, str) and (p + os.sep).startswith(
            self.dir + os.sep)

    def __enter__(self):
        def listdir(path='.'):
            names = self.real[0](path)
            return self._order(names) if self._mine(path) else names

        def scandir(path='.'):
            if not self._mine(path):
                return self.real[1](path)
            with self.real[1](path) as it:
                return _Scan(self._order(it, key=lambda e: e.name))
        os.listdir, os.scandir = listdir, scandir
        return self

    def __exit__(self, *a):
        os.listdir, os.scandir = self.real
        if self.old is not None:
            os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

    # ------------------------------------------------------------- json
    def _dumps(self, obj, *a, **k):
        jsonable(obj)
        self.docs.append(snap(obj))
        return 'json:%d' % (len(self.docs) - 1)

    def _dump(self, obj, fp, *a, **k):
        fp.write(self._dumps(obj))

    def saved(self, *parts):
        """the document in a file, or None"""
        p = os.path.join(self.dir, *parts)
        if not os.path.exists(p):
            return None
        m = re.match(r'json:(\d+)\s*$', open(p).read())
        return self.docs[int(m.group(1))] if m else None

    # --------------------------------------------------- field files
    def put(self, rel, value):
        p = os.path.join(self.dir, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('field')
        self.tables[os.path.realpath(p)] = value

    def _load(self, f, *a, **k):
        f = getattr(f, 'name', f)
        p = os.path.realpath(str(f))
        if p not in self.tables:
            raise FileNotFoundError(p)
        v = self.tables[p]
        if isinstance(v, dict):
            return Npz({k: x.copy() for k, x in v.items()})
        return v.copy()

    # -------------------------------------------------------- drawing
    def calls(self, *names):
        """(index, full name, args, kwargs) of the drawing calls whose last
        name is one of names, in order"""
        logs = [self.w.plt._log]
        out = []
        for lg in logs:
            for i, (n, a, k) in enumerate(lg):
                if n.split('.')[-1] in names:
                    out.append((i, n, a, k))
        return out


class Npz(dict):
    files = property(lambda self: list(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass
