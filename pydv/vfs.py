"""A virtual file system for the interpreted code: yaml documents, numeric
tables and data frames are stored as values (the assumed contract of the
libraries: reading returns what was written)."""
import os.path as _p
from .core import Unsupported, State
from . import models


class VFile:
    pv_immutable = True

    def __init__(self, vfs, path, mode):
        self.vfs, self.path, self.mode = vfs, path, mode
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def write(self, s):
        self.vfs.files.setdefault(self.path, ('text', []))[1].append(s)

    def read(self):
        k, v = self.vfs.files[self.path]
        if k != 'text':
            raise Unsupported("reading a %s file as text" % k)
        return ''.join(v)

    def readlines(self):
        return self.read().splitlines(True)


class VFS:
    def __init__(self):
        self.files = {}
        self.dirs = set()
        self.log = []

    def key(self, path):
        if isinstance(path, models.SymStr):
            return path
        if hasattr(path, '__fspath__'):
            path = path.__fspath__()
        return _p.normpath(path)

    def guard(self, what):
        if State.journal is not None:
            raise Unsupported("file operation inside a symbolic loop (%s)" % what)

    def open(self, path, mode='r', **k):
        p = self.key(path)
        self.guard('open')
        if 'r' in mode and '+' not in mode:
            if p not in self.files:
                raise FileNotFoundError(2, 'No such file or directory', path)
        elif 'w' in mode:
            self.files[p] = ('text', [])
        elif 'a' in mode:
            self.files.setdefault(p, ('text', []))
        else:
            raise Unsupported("open mode %s" % mode)
        self.log.append(('open', p, mode))
        return VFile(self, p, mode)

    def exists(self, path):
        p = self.key(path)
        return p in self.files or p in self.dirs

    def isdir(self, path):
        return self.key(path) in self.dirs

    def makedirs(self, path, mode=0o777, exist_ok=False):
        self.guard('makedirs')
        self.dirs.add(self.key(path))

    def remove(self, path):
        self.guard('remove')
        p = self.key(path)
        if p not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', path)
        del self.files[p]
        self.log.append(('remove', p))

    def rename(self, a, b):
        self.guard('rename')
        self.files[self.key(b)] = self.files.pop(self.key(a))

    def samefile(self, a, b):
        return self.key(a) == self.key(b)

    def getsize(self, path):
        raise Unsupported("getsize")

    def listdir(self, path):
        raise Unsupported("listdir")

    def put(self, path, kind, value):
        self.guard('write')
        self.files[self.key(path)] = (kind, value)

    def get(self, path, kind):
        p = self.key(path)
        if p not in self.files:
            raise FileNotFoundError(2, 'No such file or directory', str(path))
        k, v = self.files[p]
        if k != kind:
            raise Unsupported("%s file read as %s" % (k, kind))
        return v

    def loadtxt(self, path, dtype=float, delimiter=None, **k):
        if k:
            raise Unsupported("loadtxt options %s" % sorted(k))
        a = self.get(path, 'table')
        from . import arr
        return a.astype(arr.as_dtype(dtype)) if True else a

    def savetxt(self, path, x, *a, **k):
        from . import arr
        self.put(path, 'table', arr.asarray(x).astype(arr.f8))


def make_yaml(ModelModule):
    from .loader import m_deepcopy

    def safe_load(f):
        if isinstance(f, VFile):
            kind, v = f.vfs.files[f.path]
            if kind == 'yaml':
                return m_deepcopy(v)
            if kind == 'text' and not v:
                return None
        raise Unsupported("yaml.safe_load of this")

    def safe_dump(data, stream=None, **k):
        if not isinstance(stream, VFile):
            raise Unsupported("yaml.safe_dump to a string")
        check_plain(data)
        State.vfs.files[stream.path] = ('yaml', listify(m_deepcopy(data)))
    return ModelModule('yaml', None, safe_load=safe_load, safe_dump=safe_dump, load=lambda f, Loader=None: safe_load(f),
                       dump=safe_dump, SafeLoader=object(), FullLoader=object())


def check_plain(v):
    """yaml.safe_dump represents plain Python values only."""
    from . import core, arr
    if isinstance(v, dict):
        for k in v:
            check_plain(k)
            check_plain(dict.__getitem__(v, k))
    elif isinstance(v, (list, tuple)):
        for x in v:
            if not isinstance(x, models.Seg):
                check_plain(x)
    elif isinstance(v, arr.SArr):
        raise ValueError("cannot represent an object")     # RepresenterError


def listify(v):
    if isinstance(v, dict):
        for k in list(v):
            dict.__setitem__(v, k, listify(dict.__getitem__(v, k)))
        return v
    if isinstance(v, (list, tuple)):
        return [x if isinstance(x, models.Seg) else listify(x) for x in v]
    return v
