"""Imports: modules of the repository are parsed from its current source and
interpreted; everything else resolves to a model."""
import ast
import os
import sys
import types
import abc
import enum
import collections
import functools
import contextlib
import inspect
import datetime
import re as _re
import json as _json
import struct as _struct
import importlib.util
from . import core, interp as _interp, models, npmodel, arr
from .core import Unsupported, State
from .interp import Env, Interp, REPO, ROOT_PKG
from .npmodel import ModelModule, Missing

_asts = {}


def parse(path):
    r = _asts.get(path)
    if r is None:
        with open(path) as f:
            r = ast.parse(f.read(), path)
        _asts[path] = r
    return r


class Module(types.ModuleType):
    pass


class Loader:
    """One per explored path: module state is never shared between paths."""
    def __init__(self, stubs=None):
        self.mods = {}
        self.stubs = dict(stubs or {})
        self.interp = Interp()
        self.interp.loader = self
        models.INTERP = self.interp
        self.lib = None

    def import_module(self, name):
        if name in self.stubs:
            v = self.stubs[name]
            if isinstance(v, Exception):
                raise v
            return v
        if name in self.mods:
            return self.mods[name]
        if name == ROOT_PKG or name.startswith(ROOT_PKG + '.'):
            return self.load_repo(name)
        m = self.external(name)
        self.mods[name] = m
        return m

    # ------------------------------------------------------------ repository
    def path_of(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        raise ModuleNotFoundError("No module named '%s'" % name)

    def load_repo(self, name):
        parent, _, last = name.rpartition('.')
        pm = None
        if parent:
            pm = self.import_module(parent)
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path_of(name)
        tree = parse(path)
        m = Module(name)
        g = m.__dict__
        g['__name__'] = name
        g['__file__'] = path
        g['__package__'] = name if ispkg else parent
        if ispkg:
            g['__path__'] = [os.path.dirname(path)]
        self.mods[name] = m
        env = Env(g, None, (), 'module')
        env.vars = g
        saved = State.numba[:]
        State.numba[:] = [None]
        sj = State.journal
        State.journal = None
        try:
            self.interp.block(tree.body, env)
        except BaseException:
            self.mods.pop(name, None)
            raise
        finally:
            State.numba[:] = saved
            State.journal = sj
        if pm is not None:
            setattr(pm, last, m)
        return m

    # -------------------------------------------------------------- external
    def external(self, name):
        if self.lib is None:
            self.lib = make_lib(self)
        m = self.lib.get(name)
        if m is not None:
            return m() if isinstance(m, types.FunctionType) else m
        top = name.split('.')[0]
        if top in ABSENT:
            raise ModuleNotFoundError("No module named '%s'" % name)
        if top in self.lib and name != top:
            o = self.external(top)
            for part in name.split('.')[1:]:
                o = getattr(o, part)
            return o
        if name in KNOWN_EXTERNAL or top in KNOWN_EXTERNAL or top in sys.stdlib_module_names:
            return ModelModule(name)
        raise ModuleNotFoundError("No module named '%s'" % name)


# not installed in the interpreter that runs the repository here
ABSENT = {'ctapipe', 'target_io', 'target_calib', 'target_driver', 'ROOT', 'root_numpy', 'fitsio'}
KNOWN_EXTERNAL = {'matplotlib', 'astropy', 'seaborn', 'pytest', 'mpl_toolkits', 'tables', 'numexpr'}


def passthrough(f=None, *a, **k):
    return f


def tqdm(it=None, *a, **k):
    return it


class Version:
    def __init__(self, s):
        self.s = s
        self.key = tuple(int(x) for x in _re.findall(r'\d+', s))
        self.release = tuple(int(x) for x in _re.match(r'v?(\d+(?:\.\d+)*)', s).group(1).split('.'))
        self.major = self.release[0]

    def __lt__(self, o): return self.key < o.key
    def __le__(self, o): return self.key <= o.key
    def __gt__(self, o): return self.key > o.key
    def __ge__(self, o): return self.key >= o.key
    def __eq__(self, o): return self.key == o.key


def make_os():
    p = os.path

    def need_str(f):
        def g(*a):
            a = [os.fspath(x) if not isinstance(x, (str, models.SymStr)) and hasattr(x, '__fspath__') else x for x in a]
            if any(isinstance(x, models.SymStr) for x in a):
                return models.SymStr([f.__name__] + list(a))
            return f(*a)
        return g

    def vfs(name):
        def g(*a, **k):
            if State.vfs is None:
                raise Unsupported("os.%s" % name)
            return getattr(State.vfs, name)(*a, **k)
        return g
    path = ModelModule('os.path', set(dir(os.path)), join=need_str(p.join), dirname=need_str(p.dirname),
                       basename=need_str(p.basename), splitext=need_str(p.splitext), abspath=need_str(lambda x: x),
                       realpath=need_str(p.normpath), split=need_str(p.split), exists=vfs('exists'), isfile=vfs('exists'),
                       isdir=vfs('isdir'), samefile=vfs('samefile'), getsize=vfs('getsize'),
                       normpath=need_str(p.normpath), expanduser=need_str(lambda x: x))
    o = ModelModule('os', set(npmodel.DIRS['os']), path=path, remove=vfs('remove'), unlink=vfs('remove'),
                    makedirs=vfs('makedirs'), rename=vfs('rename'), listdir=vfs('listdir'), sep='/', environ={},
                    getcwd=lambda: '/cwd', linesep='\n', replace=vfs('rename'))
    return o, path


def make_lib(loader):
    call = lambda f, a, k={}: loader.interp.call(f, a, k)
    np = npmodel.make_numpy()
    osm, ospath = make_os()
    lib = {'numpy': np, 'numba': npmodel.make_numba(), 'math': npmodel.make_math(), 'os': osm, 'os.path': ospath}
    lib['numpy.ma'] = np.ma
    lib['numba.typed'] = lib['numba'].typed
    lib['numba.types'] = lib['numba'].types
    lib.update(npmodel.make_scipy())

    def partial(f, *a, **k):
        return lambda *b, **kk: loader.interp.call(f, a + b, {**k, **kk})

    def reduce_(f, it, *init):
        items = models.concrete_iter(it)
        if init:
            items = [init[0]] + items
        r = items[0]
        for x in items[1:]:
            r = loader.interp.call(f, (r, x), {})
        return r
    lib['functools'] = ModelModule('functools', set(dir(functools)), partial=partial, wraps=lambda f: (lambda g: g),
                                   lru_cache=lru_cache, reduce=reduce_, cached_property=functools.cached_property)
    lib['abc'] = ModelModule('abc', set(dir(abc)), ABC=abc.ABC, ABCMeta=abc.ABCMeta, abstractmethod=abc.abstractmethod,
                             abstractproperty=abc.abstractproperty)
    lib['enum'] = ModelModule('enum', set(dir(enum)), Enum=enum.Enum, IntEnum=enum.IntEnum, unique=enum.unique,
                              auto=enum.auto)
    lib['collections'] = ModelModule('collections', set(dir(collections)), defaultdict=collections.defaultdict,
                                     OrderedDict=collections.OrderedDict, namedtuple=collections.namedtuple)
    lib['copy'] = ModelModule('copy', {'copy', 'deepcopy'}, copy=m_copy, deepcopy=m_deepcopy)
    lib['warnings'] = ModelModule('warnings', None, warn=lambda *a, **k: None, simplefilter=lambda *a, **k: None,
                                  filterwarnings=lambda *a, **k: None, catch_warnings=NullCtx)
    lib['tqdm'] = ModelModule('tqdm', None, tqdm=tqdm, trange=lambda *a, **k: models.b_range(*a))
    lib['tqdm.auto'] = lib['tqdm']
    lib['iminuit'] = ModelModule('iminuit', None, Minuit=Missing('iminuit.Minuit'))
    lib['iminuit.iminuit_warnings'] = ModelModule('iminuit.iminuit_warnings', None, HesseFailedWarning=Warning)
    lib['packaging'] = ModelModule('packaging', None)
    lib['packaging.version'] = ModelModule('packaging.version', None, parse=Version, Version=Version)
    lib['contextlib'] = ModelModule('contextlib', set(dir(contextlib)))
    lib['typing'] = lambda: __import__('typing')
    lib['__future__'] = ModelModule('__future__', None)
    lib['inspect'] = ModelModule('inspect', set(dir(inspect)), isabstract=inspect.isabstract, getmembers=getmembers,
                                 isclass=inspect.isclass)
    lib['pkgutil'] = ModelModule('pkgutil', None, walk_packages=walk(True), iter_modules=walk(False))

    def find_spec(name, package=None):
        try:
            loader.path_of(name)
        except ModuleNotFoundError:
            return None
        return types.SimpleNamespace(name=name)

    def imp(name, package=None):
        if name.startswith('.'):
            name = (package or '') + name if not name.startswith('..') else name
        return loader.import_module(name)
    lib['importlib'] = ModelModule('importlib', None, import_module=imp, util=ModelModule('importlib.util', None, find_spec=find_spec))
    lib['importlib.util'] = lib['importlib'].util
    lib['re'] = ModelModule('re', set(dir(_re)), **{n: getattr(_re, n) for n in ('compile', 'match', 'search', 'findall', 'sub', 'split', 'fullmatch')})
    lib['time'] = ModelModule('time', None, time=lambda: core.wrap(core.fresh_real('time')), sleep=lambda *a: None)
    lib['itertools'] = make_itertools()
    lib['operator'] = lambda: __import__('operator')
    lib['json'] = ModelModule('json', set(dir(_json)))
    lib['struct'] = ModelModule('struct', set(dir(_struct)))
    lib['datetime'] = ModelModule('datetime', None)
    lib['glob'] = ModelModule('glob', None)
    lib['sys'] = ModelModule('sys', None, modules={}, version_info=(3, 12, 3), stdout=Missing('sys.stdout'))
    lib['logging'] = ModelModule('logging', None)
    lib['argparse'] = lambda: __import__('argparse')
    from . import pdmodel
    lib.update(pdmodel.make(loader))
    return lib


class NullCtx:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return []

    def __exit__(self, *a):
        return False


def lru_cache(*a, **k):
    if a and callable(a[0]):
        return a[0]
    return lambda f: f


def m_copy(o):
    from .interp import born
    if isinstance(o, list):
        return born(list(o))
    if isinstance(o, dict):
        return born(models._copy_dict(o))
    if isinstance(o, set):
        return born(set(o))
    m = getattr(type(o), '__copy__', None)
    if m is not None:
        return m(o)
    if isinstance(o, (core.SVal, int, float, str, tuple, type(None))):
        return o
    r = object.__new__(type(o))
    r.__dict__.update(o.__dict__)
    return born(r)


def m_deepcopy(o, memo=None):
    from .interp import born
    if isinstance(o, list):
        return born([m_deepcopy(x) for x in o])
    if isinstance(o, dict):
        r = models._copy_dict(o)
        for k in list(r):
            dict.__setitem__(r, k, m_deepcopy(dict.__getitem__(r, k)))
        return born(r)
    if isinstance(o, tuple):
        return tuple(m_deepcopy(x) for x in o)
    if isinstance(o, (core.SVal, int, float, str, type(None), type, models.Seg)) or callable(o):
        return o
    m = getattr(type(o), '__deepcopy__', None)
    if m is not None:
        return m(o, {})
    r = object.__new__(type(o))
    for k, v in o.__dict__.items():
        r.__dict__[k] = m_deepcopy(v)
    return born(r)


def getmembers(o, pred=None):
    out = []
    for n in sorted(dir(o)):
        try:
            v = getattr(o, n)
        except AttributeError:
            continue
        if pred is None or models.truth(models.INTERP.call(pred, (v,), {})):
            out.append((n, v))
    return out


def walk(recursive):
    def g(path=None, prefix='', onerror=None):
        out = []
        for p in models.concrete_iter(path):
            for f in sorted(os.listdir(p)):
                full = os.path.join(p, f)
                if f.endswith('.py') and f != '__init__.py':
                    out.append(ModInfo(None, prefix + f[:-3], False))
                elif os.path.isfile(os.path.join(full, '__init__.py')):
                    out.append(ModInfo(None, prefix + f, True))
                    if recursive:
                        # walk_packages imports the package to find its path
                        out.extend(g([full], prefix + f + '.'))
        return out
    return g


ModInfo = collections.namedtuple('ModInfo', ['module_finder', 'name', 'ispkg'])


def make_itertools():
    import itertools

    def chain(*its):
        out = []
        for i in its:
            out.extend(models.to_list(i))
        return out
    chain.from_iterable = lambda its: chain(*models.concrete_iter(its))
    return ModelModule('itertools', set(dir(itertools)), chain=chain,
                       product=lambda *a, **k: list(itertools.product(*[models.concrete_iter(x) for x in a], **k)))
