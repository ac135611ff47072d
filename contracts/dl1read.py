"""Contracts of reading HDF5 and DL1 files (C24)."""
from pydv.registry import unit
from hdf5 import Missing, Attrs

R = 'CHECLabPy.core.io.hdf5_reader'
D = 'CHECLabPy.core.io.dl1_reader'
PANDAS = ('pandas/PyTables as modelled in contracts/dl1read.py: select(start, stop) gives the rows start <= i < stop, '
          'select_column the column, select(chunksize=c) successive chunks of int(c) rows, attributes hold what was stored')


class Part(Missing):
    """Rows lo <= i < hi of a table (and how it was asked for)."""

    def __init__(self, cx, key, lo, hi, options):
        self.cx, self.key, self.lo, self.hi, self.options = cx, key, lo, hi, options

    def pv_subst(self, sub):
        return Part(self.cx, self.key, self.cx.subst(self.lo, sub), self.cx.subst(self.hi, sub), self.options)


class Node(Missing):
    def __init__(self, cx, nrows, attrs, columns):
        self.cx, self.nrows, self.attrs = cx, nrows, attrs
        self.attrs.non_index_axes = [(1, columns)]


class Store(Missing):
    def __init__(self, f, path, mode='a', **k):
        if mode != 'r':
            f.cx.cannot('reader that opens the file to write')
        self.cx, self.f, self.is_open = f.cx, f, True
        self.nodes = f.nodes

    def keys(self):
        return ['/' + k for k in self.nodes]

    def __contains__(self, key):
        return key.strip('/') in self.nodes

    def get_storer(self, key):
        if key.strip('/') not in self.nodes:
            raise KeyError('No object named %s in the file' % key)
        return self.nodes[key.strip('/')]

    def select(self, key, where=None, start=None, stop=None, columns=None, iterator=False, chunksize=None, auto_close=False):
        n = self.get_storer(key)
        if iterator:
            self.cx.cannot('select(iterator=True)')
        key = key.strip('/')
        if chunksize is not None:
            return [Part(self.cx, key, 0, n.nrows, dict(chunksize=chunksize, where=where, start=start, stop=stop, columns=columns))]
        return Part(self.cx, key, 0 if start is None else start, n.nrows if stop is None else stop, dict(where=where, columns=columns))

    def select_column(self, key, column, where=None, start=None, stop=None):
        self.get_storer(key)
        if where is not None:
            self.cx.cannot('select_column(where=...)')
        c = self.f.cols[key.strip('/')][column]
        if start is not None or stop is not None:
            c = c[start:stop]
        return self.cx.frame({column: c})[column]

    def __getitem__(self, key):
        return Part(self.cx, key.strip('/'), 0, self.get_storer(key).nrows, dict(where=None, columns=None))

    def close(self):
        self.is_open = False


class File:
    """Any DL1 file: N events of P pixels, one row each, event after event,
    with any event numbers (concretely: distinct ones)."""

    def __init__(self, cx, nbytes=None, meta=None, other=False, mapping=False):
        self.cx = cx
        cx.assume_contract(PANDAS)
        self.N = cx.int('N', 1, conc=(1, 7))
        self.P = cx.int('P', 1, conc=(1, 5))
        self.num = cx.array('num', (self.N,), 'i4', 0, 40)
        self.start = cx.int('first_number', 0, conc=(0, 3))
        self.rows = self.N * self.P
        self.nbytes = nbytes
        r, d = cx.load(R), cx.load(D)
        self.r, self.d = r, d
        md = dict(n_events=self.N, n_pixels=self.P, version=r.__version__, n_bytes=nbytes, total_bytes=nbytes, is_mc=False,
                  **(meta or {}).get('metadata', {}))
        self.meta = dict(meta or {}, metadata=md)
        self.path = cx.tmp('file.h5')
        if cx.symbolic:
            self.event = cx.array('event', (self.N,), 'i4')
            self.cols = dict(data=dict(
                iev=cx.build((self.rows,), lambda i: self.event[cx.fdiv(i, self.P)], 'i4'),
                pixel=cx.build((self.rows,), lambda i: i - cx.fdiv(i, self.P) * self.P, 'i4')))
            self.nodes = {}
            self.add('data', self.rows, self.meta, ['iev', 'pixel'])
            if other:
                self.add('other', 3, dict(metadata=dict(n_bytes=0, z=1)), ['z'])
            if mapping:
                self.add('mapping', self.P, dict(metadata=dict(cfgpath='cfg')), ['pixel'])
            cx.write_table(self.path, cx.np.zeros(1))
            pd = cx.module('pandas', HDFStore=lambda path, mode='a', **k: Store(self, path, mode, **k))
            for m in (r, d):
                if 'pd' in vars(m):
                    cx.patch(m, 'pd', pd)
        else:
            import numpy as np
            import pandas as pd
            self.event = self.start + np.cumsum(1 + self.num % 3).astype('i4')
            if cx.choice('unordered', [False, True]):
                self.event = self.event[np.argsort(self.num, kind='stable')]
            if self.nbytes is None:
                self.nbytes = md['n_bytes'] = md['total_bytes'] = 1000
            self.cols = dict(data=dict(iev=np.repeat(self.event, self.P), pixel=np.tile(np.arange(self.P), self.N)))
            with pd.HDFStore(self.path, 'w') as s:
                s.append('data', pd.DataFrame(self.cols['data']), index=False, data_columns=True)
                for k, v in self.meta.items():
                    setattr(s.get_storer('data').attrs, k, v)
                if other:
                    s.append('other', pd.DataFrame(dict(z=[1, 2, 3])), index=False, data_columns=True)
                    s.get_storer('other').attrs.metadata = dict(n_bytes=0, z=1)
                if mapping:
                    s['mapping'] = pd.DataFrame(dict(pixel=np.arange(self.P)))
                    s.get_storer('mapping').attrs.metadata = dict(cfgpath='cfg')

    def add(self, key, nrows, meta, columns):
        a = Attrs()
        for k, v in meta.items():
            setattr(a, k, v)
        self.nodes[key] = Node(self.cx, nrows, a, columns)

    def open(self):
        return self.d.DL1Reader(self.path)

    def bounds(self, df):
        """First and last + 1 row of a part that was read."""
        cx = self.cx
        if cx.symbolic:
            cx.ensure('rows of the data table', df.key == 'data' and df.options['where'] is None and df.options['columns'] is None)
            return df.lo, df.hi
        ix = list(df.index)
        ok = ix == list(range(ix[0], ix[0] + len(ix))) if ix else True
        cx.ensure('consecutive rows with all columns', ok and list(df.columns) == ['iev', 'pixel'])
        return (ix[0], ix[-1] + 1) if ix else (0, 0)

    def is_event(self, name, df, e):
        """df holds the rows of the e-th event, and nothing else."""
        lo, hi = self.bounds(df)
        self.cx.eq(name + ' first row', lo, e * self.P)
        self.cx.eq(name + ' end', hi, (e + 1) * self.P)


def some_bytes(cx):
    return cx.int('n_bytes', 1, conc=(1, 10 ** 10))


@unit('C24')
def event_by_number(cx):
    """reader[q] gives the rows whose event number is q, or refuses."""
    f = File(cx, some_bytes(cx))
    r = f.open()
    if cx.choice('twice', [False, True]):
        cx.raises(lambda: r[f.event[0]], IndexError)
    q = cx.int('q', conc=(0, 25))
    if not cx.symbolic and cx.choice('present', [True, False]):
        q = int(f.event[cx.int('which', 0, f.N - 1)])
    j = cx.first(f.N, lambda e: f.event[e] == q)
    if cx.decide(j == f.N):
        cx.must_raise('unknown number', lambda: r[q], IndexError)
    else:
        f.is_event('event', r[q], j)


@unit('C24')
def event_by_index(cx):
    f = File(cx, some_bytes(cx))
    r = f.open()
    e = cx.int('e', 0, f.N - 1)
    f.is_event('event', r.select_event_index(e), e)


@unit('C24')
def all_events(cx):
    """iterate_over_events yields every event once, in order."""
    f = File(cx, some_bytes(cx))
    r = f.open()
    cx.seq('events', cx.list(r.iterate_over_events()), f.N, lambda e, df: f.is_event('event', df, e))


@unit('C24')
def selected_events(cx):
    """iterate_over_selected_events yields the events that are selected, once
    and in order."""
    f = File(cx, some_bytes(cx))
    r = f.open()
    L = cx.int('L', 0, conc=(0, 8))
    sel = cx.array('sel', (L,), 'i4', 0, 20)
    got = cx.list(r.iterate_over_selected_events(sel.tolist() if cx.choice("list", [True, False]) else sel))
    inside = lambda e: cx.exists(L, lambda i: sel[i] == f.event[e])
    cx.filtered('selected', got, f.N, inside, lambda e: (e * f.P, (e + 1) * f.P), f.bounds)


@unit('C24')
def table_size(cx):
    """Tables over 8 GB have to be forced, unknown ones are refused."""
    nb = some_bytes(cx)
    f = File(cx, nb, other=True)
    cls = cx.choice('class', ['DL1Reader', 'HDF5Reader'])
    r = f.open() if cls == 'DL1Reader' else f.r.HDF5Reader(f.path)
    via = cx.choice('via', ['load', 'read']) if cls == 'DL1Reader' else 'read'
    force = cx.choice('force', [None, False, True])
    kw = {} if force is None else dict(force=force)
    call = (lambda: r.load_entire_table(**kw)) if via == 'load' else (lambda: r.read('data', **kw))
    if cx.decide(nb > 8 * 10 ** 9) and not force:
        cx.must_raise('table over 8 GB', call, MemoryError)
    else:
        lo, hi = f.bounds(call())
        cx.eq('first row', lo, 0)
        cx.eq('end', hi, f.rows)
    cx.must_raise('unknown table', lambda: r.read('nothing'), KeyError)
    cx.must_raise('unknown table, forced', lambda: r.read('nothing', force=True), KeyError)


@unit('C24')
def metadata(cx):
    """Metadata are looked up under table and name; others are refused."""
    cfg = cx.int('cfg')
    S, V, M = cx.int('n_samples', 1), cx.int('camera', 0), cx.int('n_modules', 1)
    f = File(cx, some_bytes(cx), meta=dict(config=dict(window=cfg), metadata=dict(n_samples=S, camera_version=V, n_modules=M)),
             other=True, mapping=cx.choice('mapping', [False, True]))
    r = f.open()
    cx.eq('default', r.get_metadata()['n_events'], f.N)
    cx.eq('entry', r.get_metadata('data', 'config')['window'], cfg)
    cx.eq('config', r.config['window'], cfg)
    cx.eq('other table', r.get_metadata('other')['z'], 1)
    cx.eq('rows', r.get_n_rows('data'), f.rows)
    cx.eq('rows of data', r.n_rows, f.rows)
    cx.eq('bytes', r.get_n_bytes('data'), f.nbytes)
    cx.eq('bytes of data', r.n_bytes, f.nbytes)
    cx.eq('events', r.n_events, f.N)
    cx.eq('pixels', r.n_pixels, f.P)
    cx.eq('samples', r.n_samples, S)
    cx.eq('camera version', r.camera_version, V)
    cx.eq('modules', r.n_modules, M)
    cx.eq('simulated', r.is_mc, False)
    cx.ensure('columns', list(r.columns) == ['iev', 'pixel'])
    cx.must_raise('unknown key', lambda: r.get_metadata('nothing'), KeyError)
    cx.must_raise('unknown name', lambda: r.get_metadata('data', 'nothing'), KeyError)
    cx.must_raise('name of another table', lambda: r.get_metadata('other', 'config'), KeyError)
    cx.ensure('tables with data', list(r.dataframe_keys) == ['data'])
    if 'mapping' not in r.store:
        cx.must_raise('no mapping', lambda: r.get_mapping(), KeyError)
    else:
        cx.eq('mapping', r.mapping.metadata['cfgpath'], 'cfg')


@unit('C24', bounded='1 to 32 modules, 1 to 16 superpixels (enumerated); any values')
def modules(cx):
    """Module quantities are those of the requested module and superpixel."""
    M = cx.choice('M', [1, 12, 32])
    SP = cx.choice('SP', [1, 16])
    f = None
    names = dict(sn='get_sn', sipm_temp='get_sipm_temp', primary_temp='get_primary_temp', dac='get_sp_dac', hvon='get_sp_hvon')
    q = cx.choice('quantity', list(names))
    sup = q in ('dac', 'hvon')
    val = cx.array('val', (M, SP), 'i8')
    other = cx.int('other')
    meta = {}
    for n in names:
        meta[n] = {}
        for t in range(M):
            for s in range(SP if n in ('dac', 'hvon') else 1):
                meta[n]['TM%02d_SP%02d' % (t, s) if n in ('dac', 'hvon') else 'TM%02d' % t] = val[t, s] if n == q else other
    meta['metadata'] = dict(n_modules=M, n_superpixels_per_module=SP)
    f = File(cx, some_bytes(cx), meta=meta)
    r = f.open()
    get = getattr(r, names[q])
    tm = cx.choice('tm', sorted(set([0, 9, 10, M - 1, M, 99])))
    sp = cx.choice('sp', sorted(set([0, 9, SP - 1, SP]))) if sup else 0
    args = (tm, sp) if sup else (tm,)
    if tm >= M or sp >= SP:
        cx.must_raise('beyond the stored counts', lambda: get(*args), IndexError)
    else:
        cx.eq('quantity', get(*args), val[tm, sp])


@unit('C24')
def chunks(cx):
    """Chunks of the requested size, or of as many rows as fit 2 GB."""
    nb = some_bytes(cx)
    f = File(cx, nb)
    cx.assume(nb <= 2 * 10 ** 9 * f.rows)   # a row fits 2 GB
    cls = cx.choice('class', ['DL1Reader', 'HDF5Reader'])
    r = f.open() if cls == 'DL1Reader' else f.r.HDF5Reader(f.path)
    size = cx.int('chunksize', 1, conc=(1, 12)) if cx.choice('given', [True, False]) else None
    a = () if cls == 'DL1Reader' else ('data',)
    how = cx.choice('how', ['positional', 'keyword']) if size is not None else 'default'
    kw = dict(columns=['iev']) if cx.choice('columns', [False, True]) else {}
    if how == 'positional':
        it = r.iterate_over_chunks(*a, size, **kw)
    elif how == 'keyword':
        it = r.iterate_over_chunks(*a, chunksize=size, **kw)
    else:
        it = r.iterate_over_chunks(*a, **kw)
    got = cx.list(it)
    if size is None:
        if cx.symbolic:
            size = cx.floor(cx.real_of(f.rows) * 2 * 10 ** 9 / nb)
        else:
            size = int(f.rows / nb * 2E9)
    if cx.symbolic:
        cx.eq('one selection', cx.len(got), 1)
        p = got[0]
        cx.ensure('rows of the data table, with the options', p.key == 'data' and p.options['where'] is None
                  and p.options['start'] is None and p.options['stop'] is None and p.options['columns'] == kw.get('columns'))
        cx.eq('rows per chunk', cx.floor(cx.real_of(p.options['chunksize'])), size)
    else:
        import pandas as pd
        cx.ensure('chunk sizes', [len(x) for x in got] == [min(size, f.rows - i) for i in range(0, f.rows, size)])
        whole = pd.concat(got)
        cx.ensure('rows', list(whole.index) == list(range(f.rows)))
        cx.ensure('columns', list(whole.columns) == (['iev'] if kw else ['iev', 'pixel']))


@unit('C24')
def rows(cx):
    """iterate_over_rows reads row by row."""
    f = File(cx, some_bytes(cx))
    got = cx.list(f.open().iterate_over_rows())
    if cx.symbolic:
        cx.eq('one selection', cx.len(got), 1)
        cx.eq('rows per chunk', got[0].options['chunksize'], 1)
    else:
        cx.ensure('rows', [list(x.index) for x in got] == [[i] for i in range(f.rows)])


@unit('C24')
def columns(cx):
    """select_column(s) give the columns asked for, in the order asked for,
    and within the rows asked for."""
    f = File(cx, some_bytes(cx))
    cls = cx.choice('class', ['DL1Reader', 'HDF5Reader'])
    r = f.open() if cls == 'DL1Reader' else f.r.HDF5Reader(f.path)
    pre = () if cls == 'DL1Reader' else ('data',)
    c = cx.choice('column', ['iev', 'pixel'])
    part = cx.choice('rows', [False, True])
    lo, hi, kw = 0, f.rows, {}
    if part:
        lo = cx.int('start', 0, conc=(0, 8))
        hi = cx.int('stop', 0, conc=(0, 12))
        cx.assume(lo <= hi)
        cx.assume(hi <= f.rows)
        kw = dict(start=lo, stop=hi)
    a = r.select_column(*pre, c, **kw)
    cx.eq('rows', cx.len(a), hi - lo)
    cx.all('column', (hi - lo,), lambda i: (a.values[i], f.cols['data'][c][lo + i]))
    names = cx.choice('names', [['pixel', 'iev'], ['iev'], [], ['iev', 'pixel', 'iev']])
    b = r.select_columns(*pre, names, **kw)
    cx.eq('columns', cx.len(b), len(names))
    for k, n in enumerate(names):
        cx.eq('rows of column %d' % k, cx.len(b[k]), hi - lo)
        cx.all('column %d' % k, (hi - lo,), lambda i: (b[k].values[i], f.cols['data'][n][lo + i]))


@unit('C24')
def select(cx):
    """select gives the rows asked for."""
    f = File(cx, some_bytes(cx))
    cls = cx.choice('class', ['DL1Reader', 'HDF5Reader'])
    r = f.open() if cls == 'DL1Reader' else f.r.HDF5Reader(f.path)
    lo = cx.int('start', 0, conc=(0, 8))
    hi = cx.int('stop', 0, conc=(0, 12))
    cx.assume(lo < hi)
    cx.assume(hi <= f.rows)
    kw = dict(start=lo, stop=hi)
    got = r.select(**kw) if cls == 'DL1Reader' else r.select('data', **kw)
    a, b = f.bounds(got)
    cx.eq('first row', a, lo)
    cx.eq('end', b, hi)


class Monitored(File):
    """A DL1 file with the (deprecated) monitor tables: one for the camera and
    ones with a row per module and per pixel of every monitor event."""
    NAMES = dict(monitor_camera=['t_cpu', 'humidity'], monitor_tm=['idevice', 'tmtemp'], monitor_pixel=['idevice', 'hv'])

    def __init__(self, cx, nbytes):
        File.__init__(self, cx, some_bytes(cx))
        self.E = cx.int('monitor events', 1, conc=(1, 5))
        devices = dict(monitor_camera=1, monitor_tm=cx.int('modules', 1, conc=(1, 4)), monitor_pixel=cx.int('monitored pixels', 1, conc=(1, 6)))
        self.devices, self.mbytes = devices, nbytes
        md = dict(n_bytes=nbytes, n_events=self.E, n_modules=devices['monitor_tm'])
        self.values = {}
        for key, names in self.NAMES.items():
            n = self.E * devices[key]
            self.values[key] = {c: cx.array('%s.%s' % (key, c), (n,), 'f8') for c in names}
            if 'idevice' in names:
                d = devices[key]
                self.values[key]['idevice'] = cx.build((n,), lambda i, d=d: i - cx.fdiv(i, d) * d, 'i4') if cx.symbolic else \
                    cx.np.arange(n) % d
        index = {'%s_index' % k: cx.array('index in ' + k, (self.rows,), 'i4', 0, 0 if not cx.symbolic else None) for k in self.NAMES}
        for k in self.NAMES:
            v, n = index['%s_index' % k], self.E * devices[k]
            if cx.symbolic:
                cx.assume(cx.forall(self.rows, lambda i, v=v, n=n: cx.and_(v[i] >= 0, v[i] < n)))
            else:
                index['%s_index' % k] = cx.np.array([cx.int('%s at %d' % (k, i), 0, n - 1) for i in range(self.rows)], dtype='i4')
        self.index = index
        self.cols['data'].update(index)
        if cx.symbolic:
            self.cols.update(self.values)
            for key, names in self.NAMES.items():
                self.add(key, self.E * devices[key], {}, names)
            self.add('monitor_metadata', 0, dict(metadata=md), [])
        else:
            import pandas as pd
            with pd.HDFStore(self.path, 'a') as s:
                meta = {k: getattr(s.get_storer('data').attrs, k) for k in self.meta}
                s.remove('data')
                s.append('data', pd.DataFrame(self.cols['data']), index=False, data_columns=True)
                for k, v in meta.items():
                    setattr(s.get_storer('data').attrs, k, v)
                for key in self.NAMES:
                    s.append(key, pd.DataFrame(self.values[key]), index=False, data_columns=True)
                s['monitor_metadata'] = pd.DataFrame()
                s.get_storer('monitor_metadata').attrs.metadata = md


@unit('C24')
def monitor_tables(cx):
    """Monitor tables over 8 GB have to be forced; each method loads its own."""
    nb = cx.int('monitor bytes', 1, conc=(1, 16 * 10 ** 9))
    f = Monitored(cx, nb)
    r = f.open()
    which = cx.choice('table', ['camera', 'tm', 'pixel'])
    force = cx.choice('force', [None, False, True])
    kw = {} if force is None else dict(force=force)
    load = getattr(r.monitor, 'load_entire_table_' + which)
    if cx.decide(nb > 8 * 10 ** 9) and not force:
        cx.must_raise('table over 8 GB', lambda: load(**kw), MemoryError)
        return
    df = load(**kw)
    key = 'monitor_' + which
    n = f.E * f.devices[key]
    if cx.symbolic:
        cx.ensure('the table asked for', df.key == key and df.options['where'] is None and df.options['columns'] is None)
        cx.eq('first row', df.lo, 0)
        cx.eq('end', df.hi, n)
    else:
        cx.ensure('the table asked for', list(df.columns) == f.NAMES[key])
        cx.eq('rows', len(df), n)


@unit('C24')
def monitor_columns(cx):
    """Monitor columns come from the table that has them, and are matched to
    the rows of the events by the stored index; others are refused."""
    f = Monitored(cx, some_bytes(cx))
    r = f.open()
    m = r.monitor
    key = cx.choice('table', list(f.NAMES))
    c = f.NAMES[key][1]
    v = f.values[key][c]
    d = f.devices[key]
    a = m.select_column(c)
    cx.eq('rows', cx.len(a), f.E * d)
    cx.all('column', (f.E * d,), lambda i: (a.values[i], v[i]))
    other = f.NAMES[cx.choice('other', list(f.NAMES))][1]
    b = m.select_columns([other, c])
    cx.eq('columns', len(b), 2)
    cx.all('second column', (f.E * d,), lambda i: (b[1].values[i], v[i]))
    g = m.select_column_as_array(c)
    cx.shape('array', g, (f.E, d))
    cx.all('array', (f.E, d), lambda e, i: (g[e, i], v[e * d + i]))
    x = r.get_matched_monitor_column(c)
    cx.eq('matched rows', cx.len(x), f.rows)
    cx.all('matched', (f.rows,), lambda i: (x.values[i], v[f.index[key + '_index'][i]]))
    cx.must_raise('unknown column', lambda: m.select_column('nothing'), KeyError)
    cx.must_raise('unknown column, matched', lambda: r.get_matched_monitor_column('nothing'), KeyError)
    cx.eq('monitor events', m.n_events, f.E)
    cx.eq('modules', m.n_modules, f.devices['monitor_tm'])


@unit('C24')
def no_monitor(cx):
    """A file without monitor tables."""
    f = File(cx, some_bytes(cx))
    r = f.open()
    cx.must_raise('no monitor tables', lambda: r.monitor, AttributeError)
