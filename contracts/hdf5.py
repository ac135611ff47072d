"""Contracts of the HDF5 writer, appender and reader (C22, C23).

The dataframes written are opaque sequences of rows ("atoms"): the contracts
hold for every content.  pandas and PyTables are replaced by the contract
below (symbolic back end); the concrete back end uses the real ones."""
from pydv.registry import unit

W = 'CHECLabPy.core.io.hdf5_writer'
A = 'CHECLabPy.core.io.hdf5_appender'
R = 'CHECLabPy.core.io.hdf5_reader'
PANDAS = ('pandas/PyTables as modelled in contracts/hdf5.py: concat keeps the rows in order, HDFStore.append adds the rows '
          'to the end of the table (refused for tables stored in one go), store[key]= replaces the table, attributes hold '
          'what they were given, memory_usage().sum() of a concatenation is the sum over its parts')


class Missing:
    """Everything of pandas that the contract does not describe."""

    def __getattr__(self, k):
        if k.startswith(('_', 'pv_')) or k == 'cx':
            raise AttributeError(k)
        self.__dict__['cx'].cannot('%s.%s is not part of the contract' % (type(self).__name__, k))


class Usage(Missing):
    def __init__(self, cx, n):
        self.cx, self.n = cx, n

    def sum(self):
        return self.n


class Rows(Missing):
    """A dataframe: the rows of its atoms, one after the other."""

    def __init__(self, w, atoms):
        self.cx, self.w, self.atoms = w.cx, w, tuple(atoms)

    def memory_usage(self, index=True, deep=False):
        return Usage(self.cx, self.w.size(self.atoms))

    def copy(self, deep=True):
        return Rows(self.w, self.atoms)

    def reset_index(self, drop=False):
        if not drop:
            self.cx.cannot('reset_index(drop=False)')
        return self


class Attrs:
    # what a node has besides the attributes set on it
    REAL_NAMES = frozenset('CLASS TITLE VERSION NROWS FILTERS pandas_type pandas_version encoding errors levels info table_type index_cols '
                           'values_cols non_index_axes data_columns nan_rep ndim nblocks axis_variety'.split())


class Node(Missing):
    def __init__(self, w, atoms, is_table):
        self.cx, self.atoms, self.is_table = w.cx, tuple(atoms), is_table
        self.attrs = Attrs()


class Store(Missing):
    """pandas.HDFStore."""

    def __init__(self, w, path, mode='a', **k):
        self.cx, self.w, self.path, self.mode = w.cx, w, path, mode
        self.is_open = True
        self.options = k
        if mode == 'w':
            w.files[path] = {}
            w.cx.write_table(path, w.cx.np.zeros(1))
        elif mode == 'a':
            w.files.setdefault(path, {})
        elif path not in w.files:
            raise OSError('%s does not exist' % path)
        self.nodes = w.files[path]

    def check(self, write=False):
        if not self.is_open:
            raise ValueError('the file is closed')
        if write and self.mode == 'r':
            raise ValueError('the file is read-only')

    @staticmethod
    def name(key):
        return key.strip('/')

    def append(self, key, value, format=None, **k):
        self.check(True)
        if format not in (None, 'table', 't') or set(k) - {'index', 'data_columns', 'expectedrows'}:
            self.cx.cannot('HDFStore.append options %s' % sorted(k))
        key = self.name(key)
        node = self.nodes.get(key)
        if node is None:
            node = self.nodes[key] = Node(self.w, (), True)
        if not node.is_table:
            raise ValueError('Can only append to Tables')
        node.atoms = node.atoms + value.atoms

    def put(self, key, value, format=None, append=False, **k):
        self.check(True)
        if append or set(k) - {'index', 'data_columns', 'expectedrows'}:
            self.cx.cannot('HDFStore.put options')
        self.nodes[self.name(key)] = Node(self.w, value.atoms, format in ('t', 'table'))

    def remove(self, key):
        self.check(True)
        del self.nodes[self.name(key)]

    def __setitem__(self, key, value):
        self.put(key, value)

    def __getitem__(self, key):
        self.check()
        return Rows(self.w, self.nodes[self.name(key)].atoms)

    get = __getitem__

    def __contains__(self, key):
        self.check()
        return self.name(key) in self.nodes

    def get_storer(self, key):
        self.check()
        if self.name(key) not in self.nodes:
            raise KeyError('No object named %s in the file' % key)
        return self.nodes[self.name(key)]

    def keys(self):
        self.check()
        return ['/' + k for k in self.nodes]

    def flush(self, fsync=False):
        self.check()

    def close(self):
        self.is_open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def flat(cx, w, frames):
    r = []
    for f in frames:
        if cx.is_segment(f):
            r.append(('segment', f.seq.n.sexpr(), f.seq.elem(w.k0).atoms))
        else:
            r.extend(f.atoms)
    return tuple(r)


class World:
    """pandas (symbolic) or the real pandas with scaled sizes (concrete), and
    what every table of the file is expected to hold."""

    def __init__(self, cx, prepare=False):
        self.cx, self.files, self.sizes, self.prepare = cx, {}, {}, prepare
        self.unit = 1
        self.count = 0
        cx.assume_contract(PANDAS)
        ms = [cx.load(W), cx.load(A), cx.load(R)]
        self.m, self.a, self.r = ms
        self.path = cx.tmp('out/file.h5')
        self.version = self.m.__version__
        if cx.symbolic:
            import z3
            self.k0 = z3.Int('atom!k')
            pd = cx.module('pandas', concat=self.concat, HDFStore=lambda path, mode='a', **k: Store(self, path, mode, **k),
                           DataFrame=lambda *a: Rows(self, ()) if not a else cx.cannot('DataFrame(...)'))
            for m in ms:
                if 'pd' in vars(m):
                    cx.patch(m, 'pd', pd)
        else:
            import pandas as pd
            w = self
            self.unit = cx.choice('unit', [1e3, 6e7, 2e8, 6e8])

            def memory_usage(df, index=True, deep=False):
                return pd.Series([int(w.unit) * len(df) * (2 if 'y' in df.columns else 1)])
            cx.patch(pd.DataFrame, 'memory_usage', memory_usage)

    # ------------------------------------------------------------- frames
    def frame(self, name, rows=None):
        """Any dataframe."""
        if self.cx.symbolic:
            return Rows(self, (name,))
        import pandas as pd
        n = self.cx.int('rows_' + name, 1, 4) if rows is None else rows
        self.count += 1000
        return pd.DataFrame(dict(x=[self.count + i for i in range(n)]))

    def concat(self, frames, ignore_index=False, **k):
        if k or not isinstance(frames, (list, tuple)):
            self.cx.cannot('concat of this form')
        if not len(frames):
            raise ValueError('No objects to concatenate')
        return Rows(self, flat(self.cx, self, frames))

    def size(self, atoms):
        s = 0
        for a in atoms:
            if a not in self.sizes:
                self.sizes[a] = self.cx.int('size%d' % len(self.sizes), 0)
            s = s + self.sizes[a]
        return s

    # prepared rows: a subclass may change the rows before they are appended
    def prep(self, df):
        if self.cx.symbolic:
            return Rows(self, [('prepared', a) for a in df.atoms])
        df = df.copy()
        df['y'] = df['x'] + 1
        return df

    def prepared(self, rows):
        """The rows as they are stored by append."""
        if not self.prepare:
            return rows
        return tuple(('prepared', a) for a in rows)

    def rows(self, df):
        if self.cx.symbolic:
            return df.atoms
        d = self.cx.list(df['x'])
        if 'y' not in df:
            return tuple(int(x) for x in d)
        if not (df['y'] == df['x'] + 1).all():
            return ('broken',)
        return tuple(('prepared', int(x)) for x in d)

    def bytes(self, rows):
        if self.cx.symbolic:
            return self.size(rows)
        return sum((2 if isinstance(r, tuple) else 1) for r in rows) * int(self.unit)

    def classes(self):
        W_ = self.m.HDF5Writer
        if self.prepare:
            self.cx.patch(W_, '_prepare_before_append', staticmethod(lambda df: self.prep(df)))
        return W_, self.a.HDF5Appender

    # ---------------------------------------------------------------- files
    def create(self, tables, meta=None):
        """A file with the given tables {key: (rows, is_table)} and metadata
        {key: {name: dict}}, closed."""
        cx = self.cx
        if cx.symbolic:
            f = self.files[self.path] = {}
            for k, (rows, is_table) in tables.items():
                f[k] = Node(self, rows, is_table)
                for name, d in (meta or {}).get(k, {}).items():
                    setattr(f[k].attrs, name, dict(d))
            cx.write_table(self.path, cx.np.zeros(1))
            return
        import pandas as pd
        import os
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        with pd.HDFStore(self.path, mode='w') as s:
            for k, (rows, is_table) in tables.items():
                df = pd.DataFrame(dict(x=[r[1] if isinstance(r, tuple) else r for r in rows]))
                if rows and isinstance(rows[0], tuple):
                    df['y'] = df['x'] + 1
                if is_table:
                    s.append(k, df, index=False, data_columns=True)
                else:
                    s[k] = df
                for name, d in (meta or {}).get(k, {}).items():
                    setattr(s.get_storer(k).attrs, name, dict(d))

    def contents(self):
        """{key: (rows, attributes)} of the closed file."""
        if self.cx.symbolic:
            return {k: (n.atoms, dict(vars(n.attrs))) for k, n in self.files[self.path].items()}
        import pandas as pd
        out = {}
        with pd.HDFStore(self.path, mode='r') as s:
            for k in s.keys():
                at = s.get_storer(k).attrs
                d = {a: getattr(at, a) for a in at._v_attrnamesuser if isinstance(getattr(at, a), dict) and a != 'info'}
                df = s[k]
                out[k[1:]] = (self.rows(df) if len(df) else (), d)
        return out


def arbitrary_rows(w, name):
    return (name,) if w.cx.symbolic else tuple(range(w.count, w.count + w.cx.int('n_' + name, 1, 4)))


class State:
    """A writer (or appender) in any state it can have between two calls: any
    number of pending dataframes in front of every table, any rows stored."""

    def __init__(self, cx, w, keys, touched=None):
        self.cx, self.w = cx, w
        writer, appender = w.classes()
        self.appending = cx.choice('class', ['writer', 'appender']) == 'appender'
        self.stored, self.pending, self.fixed = {}, {}, {}
        self.meta0 = {}
        old = {}
        if self.appending:
            for k in keys:
                old[k] = w.prepared(arbitrary_rows(w, 'old_' + k))
                w.count += 1000
            self.oldmeta = {k: dict(metadata=dict(n_bytes=w.bytes(old[k]) , run=cx.int('run_' + k)), extra=dict(z=k))
                            for k in keys}
            self.oldmeta.setdefault('data', dict(metadata=dict()))['metadata'].update(total_bytes=17, version=w.version)
            tables = {k: (old[k], True) for k in keys}
            if 'data' not in keys:
                tables['data'] = ((), False)
            if cx.symbolic:
                for k in keys:
                    cx.assume(w.size(old[k]) > 0)
            w.create(tables, self.oldmeta)
            self.o = appender(w.path)
        else:
            self.oldmeta = {}
            self.o = writer(w.path)
        for k in keys:
            self.stored[k] = old.get(k, ())
            self.pending[k] = ()
        if cx.symbolic:
            cx.representation(self.o, 'df_list', 'df_list_n_bytes', 'n_bytes', 'keys', 'store', 'metadata')
            o = self.o
            for k in keys:
                if touched is None or k in touched:
                    o.keys.add(k)
                if k in o.keys and cx.choice('stored_' + k, [True, False]):
                    new = ('new_' + k,)
                    self.stored[k] = self.stored[k] + w.prepared(new)
                    o.store.append(k, Rows(w, w.prepared(new)))
                o.n_bytes[k] = w.bytes(self.stored[k])
                n = cx.int('pending_' + k, 0) if k in o.keys else 0
                lst = cx.segment(n, lambda i, k=k: Rows(w, ('pending_' + k,)))
                if cx.decide(n > 0):
                    o.df_list[k] = lst
                    self.pending[k] = flat(cx, w, lst)
                else:
                    o.df_list[k] = []
                o.df_list_n_bytes[k] = cx.int('pending_bytes_' + k, 0)
        else:
            for i in range(cx.int('history', 0, 4)):
                k = cx.choice('h%d_key' % i, keys)
                df = w.frame('h%d' % i)
                self.append(k, df)

    def append(self, k, df, **kw):
        rows = self.w.rows(df)
        self.o.append(df, key=k, **kw)
        self.pending[k] = self.pending.get(k, ()) + rows

    def expected(self, k):
        return self.stored.get(k, ()) + self.w.prepared(self.pending.get(k, ()))

    def check(self, cx, keys):
        """The invariant: what is stored and what is pending make up what was
        appended; the recorded size is that of what is stored."""
        w, o = self.w, self.o
        if cx.symbolic:
            for k in keys:
                node = o.store.nodes.get(k)
                st = node.atoms if node is not None else ()
                pend = w.prepared(flat(cx, w, o.df_list[k]))
                cx.ensure('rows of %s: stored, then pending' % k, st + pend == self.expected(k))
                cx.eq('recorded size of ' + k, o.n_bytes[k], w.bytes(st))
                cx.ensure('%s is a table of the writer' % k, self.appending and k in self.oldmeta or k in o.keys)
            cx.ensure('still open', o.store.is_open)
        else:
            o.finish()
            c = w.contents()
            for k in keys:
                if k not in c:
                    cx.ensure('%s is a table of the file' % k, not self.expected(k))
                    continue
                cx.ensure('rows of %s: stored, then pending' % k, c[k][0] == self.expected(k))
                cx.eq('recorded size of ' + k, c[k][1]['metadata']['n_bytes'], w.bytes(self.expected(k)))


KEYS = ['a', 'b']


@unit('C22', 'C23')
def append(cx):
    """append keeps the invariant, whether it flushes or not."""
    w = World(cx, cx.choice('prepare', [False, True]))
    s = State(cx, w, KEYS)
    k = cx.choice('key', ['a', 'c'])
    df = w.frame('df')
    kw = dict(expectedrows=cx.int('expected', 1, 1000)) if cx.choice('expectedrows', [False, True]) else {}
    s.append(k, df, **kw)
    s.check(cx, KEYS + ['c'] if k == 'c' else KEYS)


@unit('C22', 'C23')
def write(cx):
    """write replaces what the tables held or had pending."""
    w = World(cx)
    s = State(cx, w, KEYS)
    ks = cx.choice('keys', [['a'], ['c'], ['a', 'c']])
    dfs = {k: w.frame('df_' + k) for k in ks}
    s.o.write(**dfs)
    for k in ks:
        s.stored[k] = w.rows(dfs[k])
        s.pending[k] = ()
    s.check(cx, KEYS + (['c'] if 'c' in ks else []))


@unit('C22', 'C23')
def new_file(cx):
    """A new writer holds nothing, and replaces a file that is there."""
    w = World(cx)
    writer, _ = w.classes()
    if cx.choice('exists', [False, True]):
        w.create({'a': (arbitrary_rows(w, 'a'), True)}, {'a': dict(metadata=dict(z=1))})
    o = writer(w.path)
    if cx.choice('finish', [True, False]):
        o.finish()
    else:
        with o:
            pass
    c = w.contents()
    cx.keys('tables of an empty file', c, ['data'])
    cx.ensure('no rows', c['data'][0] == ())
    cx.keys('metadata of an empty file', c['data'][1], ['metadata'])
    md = c['data'][1]['metadata']
    cx.eq('total', md['total_bytes'], 0)
    cx.eq('version', md['version'], w.version)


def any_metadata(cx, o, keys):
    """Metadata added before: through the public method, any number of
    entries being the same as one (later entries override)."""
    model = {}
    for k in keys:
        for name in ['metadata', 'config']:
            n = cx.choice('meta_%s_%s' % (k, name), [None, 'p', 'pq'])
            if n is None:
                continue
            d = {e: cx.int('m_%s_%s_%s' % (k, name, e)) for e in n}
            o.add_metadata(key=k, name=name, **d)
            model.setdefault(k, {}).setdefault(name, {}).update(d)
    return model


@unit('C23', bounded='two tables, two names, up to two entries per call; any values')
def metadata(cx):
    """add_metadata overrides entry by entry and refuses reserved names; what
    was added is in the file when it is closed."""
    w = World(cx)
    writer, appender = w.classes()
    app = cx.choice('class', ['writer', 'appender']) == 'appender'
    old = {}
    if app:
        rows = arbitrary_rows(w, 'old')
        if cx.symbolic:
            cx.assume(w.size(rows) > 0)
        old = {'a': dict(metadata=dict(n_bytes=w.bytes(rows), p=1, z=2), config=dict(p=3, z=4), other=dict(y=5)),
               'data': dict(metadata=dict(total_bytes=3, version=w.version, z=6))}
        w.create({'a': (rows, True), 'data': ((), False)}, old)
        o = appender(w.path)
    else:
        o = writer(w.path)
    model = any_metadata(cx, o, ['a'])
    key = cx.choice('key', ['a', 'b', None])
    name = cx.choice('name', ['metadata', 'config', 'info', 'mapping', None])
    d = dict(q=cx.int('q'), r=cx.int('r'))
    kw = {} if key is None else dict(key=key)
    kw.update({} if name is None else dict(name=name))
    reserved = name in ('info', 'mapping')
    if reserved:
        cx.must_raise('reserved names are refused', lambda: o.add_metadata(**kw, **d), ValueError)
    else:
        given = dict(d)
        o.add_metadata(**kw, **d)
        cx.keys('the arguments are left alone', d, ['q', 'r'])
        model.setdefault(key or 'data', {}).setdefault(name or 'metadata', {}).update(given)
    o.finish()
    c = w.contents()
    for k in set(model) | set(old):
        for nm in set(model.get(k, {})) | set(old.get(k, {})):
            want = {**old.get(k, {}).get(nm, {}), **model.get(k, {}).get(nm, {})}
            got = c[k][1].get(nm)
            cx.ensure('metadata %s of %s is stored' % (nm, k), got is not None)
            if got is None:
                continue
            auto = {'n_bytes', 'total_bytes', 'version'} if nm == 'metadata' else set()
            cx.keys('entries of %s of %s' % (nm, k), {e: 1 for e in got if e not in auto}, [e for e in want if e not in auto])
            for e in want:
                if e not in auto and e in got:
                    cx.eq('entry %s of %s of %s' % (e, nm, k), got[e], want[e])
    cx.eq('version', c['data'][1]['metadata']['version'], w.version)


@unit('C22', 'C23', bounded='up to three tables; any rows, any number of pending dataframes, any sizes')
def finish(cx):
    """Closing stores everything that is pending, the sizes, their total and
    the version."""
    w = World(cx, cx.choice('prepare', [False, True]))
    keys = cx.choice('tables', [['a'], ['a', 'data'], ['a', 'b', 'c']])
    s = State(cx, w, keys, None if cx.choice('touched', [True, False]) else keys[:1])
    if cx.choice('exception', [False, True]):
        cx.raises(lambda: failing(s.o), KeyError)
    else:
        s.o.finish()
    c = w.contents()
    total = 0
    for k in keys:
        want = s.expected(k)
        if k not in c:
            cx.ensure('%s has no rows' % k, not want)
            continue
        cx.ensure('rows of ' + k, c[k][0] == want)
        md = c[k][1].get('metadata', {})
        if want or 'n_bytes' in md:
            cx.eq('size of ' + k, md['n_bytes'], w.bytes(want))
        total = total + w.bytes(want)
        if s.appending and k in s.oldmeta:
            cx.eq('older entry of ' + k, md['run'], s.oldmeta[k]['metadata']['run'])
            cx.eq('older metadata of ' + k, c[k][1]['extra']['z'], k)
    cx.ensure('no other table', set(c) <= set(keys) | {'data'})
    md = c['data'][1]['metadata']
    cx.eq('total size', md['total_bytes'], total)
    cx.eq('version', md['version'], w.version)
    if cx.symbolic:
        cx.ensure('closed', not s.o.store.is_open)


def failing(o):
    with o:
        raise KeyError('in the with block')


@unit('C22', 'C23', bounded='up to three tables in the file; any rows and sizes')
def open_file(cx):
    """An appender starts from the recorded sizes and changes nothing."""
    w = World(cx)
    keys = cx.choice('tables', [[], ['a'], ['data'], ['a', 'data', 'b']])
    fixed = cx.choice('written', [False, True])
    rows = {}
    for k in keys:
        rows[k] = arbitrary_rows(w, k)
        w.count += 1000
        if cx.symbolic:
            cx.assume(w.size(rows[k]) > 0)
    meta = {k: dict(metadata=dict(n_bytes=w.bytes(rows[k]), z=1), extra=dict(y=k)) for k in keys}
    meta.setdefault('data', dict(metadata=dict()))['metadata'].update(total_bytes=7, version=w.version)
    tables = {k: (rows[k], not fixed) for k in keys}
    tables.setdefault('data', ((), False))
    w.create(tables, meta)
    o = w.classes()[1](w.path)
    o.finish()
    c = w.contents()
    cx.keys('tables', c, list(tables))
    for k in keys:
        cx.ensure('rows of ' + k, c[k][0] == rows[k])
        cx.eq('size of ' + k, c[k][1]['metadata']['n_bytes'], w.bytes(rows[k]))
        cx.eq('metadata of ' + k, c[k][1]['metadata']['z'], 1)
        cx.eq('more metadata of ' + k, c[k][1]['extra']['y'], k)
    total = 0
    for k in keys:
        total = total + w.bytes(rows[k])
    cx.eq('total size', c['data'][1]['metadata']['total_bytes'], total)
    cx.eq('version', c['data'][1]['metadata']['version'], w.version)


@unit('C22', 'C23')
def missing_file(cx):
    """An appender needs a file."""
    w = World(cx)
    cx.must_raise('file that does not exist', lambda: w.classes()[1](cx.tmp('nowhere.h5')), FileNotFoundError)


@unit('C22', 'C23', bounded='histories of up to three operations (symbolic) / twelve (concrete) on two tables; any rows and sizes', cost=3)
def history(cx):
    """Any sequence of operations, then closing -- independent of how the
    writer keeps its state."""
    w = World(cx)
    writer, appender = w.classes()
    model, direct = {}, set()
    meta = {}
    o = writer(w.path)
    n = cx.int('n', 0, 12) if not cx.symbolic else cx.choice('n', [1, 3])
    for i in range(n):
        op = cx.choice('op%d' % i, ['append a', 'append b', 'write a', 'meta'])
        if op == 'append a' and 'a' in direct or op == 'write a' and cx.symbolic and i == 1:
            continue    # appending to a table written in one go: see append_after_write
        if op.startswith('append'):
            k = op[-1]
            df = w.frame('f%d' % i)
            o.append(df, key=k)
            model[k] = model.get(k, ()) + w.rows(df)
        elif op == 'write a':
            df = w.frame('f%d' % i)
            o.write(a=df)
            model['a'] = w.rows(df)
            direct.add('a')
        else:
            v = cx.int('v%d' % i)
            o.add_metadata(key='b', name='config', **{'e%d' % (i % 2): v})
            meta['e%d' % (i % 2)] = v
        if cx.choice('reopen%d' % i, [False, True]) if cx.symbolic and i == 1 else \
                not cx.symbolic and cx.choice('reopen%d' % i, [False] * 4 + [True]):
            o.finish()
            o = appender(w.path)
            if 'b' not in model and meta:
                model.setdefault('b', ())
                direct.add('b')
        if 'b' in direct and not model.get('b'):
            break   # a table that only holds metadata cannot be appended to: see append_to_metadata
    o.finish()
    c = w.contents()
    for k in model:
        if not model[k] and k not in c:
            continue
        cx.ensure('rows of ' + k, c[k][0] == model[k])
        if model[k]:
            cx.eq('size of ' + k, c[k][1]['metadata']['n_bytes'], w.bytes(model[k]))
    for e in meta:
        cx.eq('metadata entry', c['b'][1]['config'][e], meta[e])
    t = 0
    for k in model:
        t = t + w.bytes(model[k])
    cx.eq('total size', c['data'][1]['metadata']['total_bytes'], t)
    cx.eq('version', c['data'][1]['metadata']['version'], w.version)


@unit('C22')
def append_after_write(cx):
    """Appending to a table that was written in one go."""
    w = World(cx)
    o = w.classes()[0](w.path)
    a, b = w.frame('a'), w.frame('b')
    o.write(t=a)
    o.append(b, key='t')
    o.finish()
    cx.ensure('rows', w.contents()['t'][0] == w.rows(a) + w.rows(b))


@unit('C22')
def append_to_metadata(cx):
    """Appending to the table that so far only holds metadata."""
    w = World(cx)
    writer, appender = w.classes()
    with writer(w.path):
        pass
    b = w.frame('b')
    with appender(w.path) as o:
        o.append(b)
    cx.ensure('rows', w.contents()['data'][0] == w.rows(b))


@unit('C23')
def mapping(cx):
    """The pixel map and its metadata are stored and come back unchanged, and
    the map is no table of the file: its rows are not counted."""
    w = World(cx)
    writer, appender = w.classes()
    o = writer(w.path)
    mp, other = w.frame('map'), w.frame('other map')
    md = dict(cfgpath='cfg', size=cx.int('size'), n_rows=cx.int('n_rows'))
    if cx.choice('earlier', [False, True]):
        with_metadata(cx, other, dict(cfgpath='other', extra=cx.int('extra')))
        o.add_mapping(other)
    with_metadata(cx, mp, md)
    df = w.frame('df')
    if cx.choice('order', [True, False]):
        o.append(df, key='data')
        o.add_mapping(mp)
    else:
        o.add_mapping(mp)
        o.append(df, key='data')
    cx.keys('the metadata is left alone', mp.metadata, ['cfgpath', 'size', 'n_rows'])
    cx.ensure('the map is left alone', w.rows(mp) == w.rows(mp.copy()))
    o.finish()
    if cx.choice('reopen', [False, True]):
        if cx.symbolic:
            cx.assume(w.bytes(w.rows(df)) > 0)
        with appender(w.path) as o:
            pass
    c = w.contents()
    cx.keys('tables', c, ['data', 'mapping'])
    cx.ensure('rows of data', c['data'][0] == w.rows(df))
    cx.eq('total size', c['data'][1]['metadata']['total_bytes'], w.bytes(w.rows(df)))
    if cx.symbolic:
        cx.assume(w.bytes(w.rows(df)) > 0)
    r = w.r.HDF5Reader(w.path)
    got = r.get_mapping()
    cx.ensure('rows of the map', w.rows(got) == w.rows(mp))
    cx.keys('metadata of the map', got.metadata, list(md))
    for k in md:
        cx.eq('metadata %s of the map' % k, got.metadata[k], md[k])
    cx.ensure('tables with data', list(r.dataframe_keys) == ['data'])
    r.store.close()


def with_metadata(cx, df, d):
    if cx.symbolic:
        df.metadata = d
        return
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', UserWarning)
        df.metadata = d
