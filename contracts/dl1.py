"""Contracts of the DL1 production (C25)."""
from pydv.registry import unit

M = 'CHECLabPy.scripts.extract_dl1'


class Event:
    def __init__(self, **k):
        self.__dict__.update(k)


class Reader:
    """What the production uses of a reader of waveforms."""

    def __init__(self, **k):
        self.__dict__.update(k)

    def pv_iter(self):
        return self.stream.pv_iter()

    def __iter__(self):
        return iter(self.stream)

    def __len__(self):
        return self.n_events


STUBS = """
class Writer:
    pass

def new(self, path):
    self.path = path
    self.tables = {}
    self.meta = {}
    self.mapping = None
    self.finished = 0
    opened.append(self)

def append(self, df, key='data', expectedrows=None):
    if key not in self.tables:
        self.tables[key] = []
    self.tables[key].append(df)

def add_mapping(self, mapping):
    self.mapping = mapping

def add_metadata(self, key='data', name='metadata', **kwargs):
    if key not in self.meta:
        self.meta[key] = {}
    if name not in self.meta[key]:
        self.meta[key][name] = {}
    self.meta[key][name].update(kwargs)

def finish(self):
    self.finished += 1
"""


def stub_writer(cx, m, tables):
    """The writer under its contract (C22, C23): tables and metadata hold
    what was added."""
    cx.assume_contract('HDF5Writer under its contract (C22, C23)')
    opened = []
    s = cx.code(STUBS.replace("self.tables = {}", "self.tables = {%s}" % ', '.join("'%s': []" % t for t in tables)), opened=opened)
    cls = m.DL1Writer
    cx.patch(cls, '__init__', s.new)
    for f in ('append', 'add_mapping', 'add_metadata', 'finish'):
        cx.patch(cls, f, getattr(s, f))
    cx.patch(m, 'pd', cx.module('pandas', DataFrame=lambda x: x[0] if isinstance(x, list) else x))
    return opened


class Run:
    """Any run: N events with any numbers, times and flags."""

    def __init__(self, cx):
        self.cx = cx
        self.m = cx.load(M)
        self.N = cx.int('N', 0, conc=(0, 8))
        self.stale = cx.array('stale', (self.N,), 'bool')
        self.missing = cx.array('missing', (self.N,), 'bool')
        self.iev = cx.array('iev', (self.N,), 'i8', 0, 10 ** 6)
        self.t = cx.array('t', (self.N,), 'i8', 0, 2 ** 60)

    def skipped(self, k):
        return self.cx.or_(self.stale[k], self.missing[k])

    def processed(self, k):
        return self.cx.not_(self.skipped(k))

    def event(self, k):
        return Event(k=k, iev=self.iev[k], t_cpu=self.t[k], stale=self.stale[k], missing_packets=self.missing[k])


@unit('C25', cost=3, fallback='C25.dl1_file')
def every_event(cx):
    """Every event is either written, once and in order, or counted as
    skipped."""
    r = Run(cx)
    opened = stub_writer(cx, r.m, ['data'])
    reader = Reader(stream=cx.stream(r.N, r.event), n_events=r.N, n_pixels=cx.int('P', 1, conc=(1, 4)), is_mc=False,
                    path='/data/run_r1.tio', mapping='mapping')
    ns = dict(config=dict(window=3), sn=dict(TM00=4), sipm_temp=dict(TM00=5), primary_temp=dict(TM00=6), dac=dict(TM00_SP00=7),
              hvon=dict(TM00_SP00=8))
    ex = cx.code('''
    class Extractor:
        source = 'test'
        skip_event = staticmethod(skip)
        def __call__(self, waveforms):
            return {'event': waveforms.k, 'iev': waveforms.iev, 't_cpu': waveforms.t_cpu}
    ''', skip=r.m.DL1Extractor.skip_event).Extractor()
    ex.metadata = dict(run_id=17)
    for k, v in ns.items():
        setattr(ex, k, v)
    out = cx.tmp('out/run_dl1.h5')
    r.m.DL1Writer.write_dl1_file(reader, ex, out)
    cx.eq('one file', len(opened), 1)
    w = opened[0]
    cx.eq('path', w.path, out)
    cx.eq('closed', w.finished, 1)
    cx.keys('tables', w.tables, ['data'])
    cx.filtered('events', w.tables['data'], r.N, r.processed, lambda k: (k, r.iev[k], r.t[k]),
                get=lambda d: (d['event'], d['iev'], d['t_cpu']))
    md = w.meta['data']['metadata']
    n = cx.sum(r.N, lambda k: cx.ite(r.processed(k), 1, 0))
    cx.eq('events processed', md['n_events'], n)
    cx.eq('events read', md['n_events'] + md['n_skipped'], r.N)
    cx.eq('other metadata', md['run_id'], 17)
    first = cx.first(r.N, r.processed)
    last = r.N - 1 - cx.first(r.N, lambda k: r.processed(r.N - 1 - k))
    for name, k in (('start_time', first), ('end_time', last)):
        none, v = cx.optional(md[name])
        cx.eq(name + ' is there', none, cx.not_(cx.exists(r.N, r.processed)))
        if cx.decide(cx.exists(r.N, r.processed)):
            cx.eq(name, v, r.t[k])
    cx.eq('mapping', w.mapping, 'mapping')
    cx.keys('metadata names', w.meta['data'], ['metadata'] + list(ns))
    for k, v in ns.items():
        cx.keys('entries of ' + k, w.meta['data'][k], list(v))
        for e in v:
            cx.eq('entry of ' + k, w.meta['data'][k][e], v[e])
    cx.keys('metadata keys', w.meta, ['data'])


@unit('C25')
def skipped_events(cx):
    """Stale events and events with missing packets are skipped."""
    m = cx.load(M)
    s, p = cx.bool('stale'), cx.bool('missing')
    cx.eq('skipped', cx.truth(m.DL1Extractor.skip_event(Event(stale=s, missing_packets=p))), cx.or_(s, p))


class Stages:
    """The stages of the reduction under their contracts (C01, C03, C09,
    C12), logging what they are given."""

    def __init__(self, cx, m):
        self.log = log = []
        st = self

        class TimeCalibrator:
            def __call__(self, w):
                return ('calibrated', w)

        class BaselineSubtractor:
            def __init__(self, reader):
                st.baseline_reader = reader
                self.baseline = None
                self.count = 0

            def subtract(self, w):
                self.count += 1
                self.baseline = ('baseline', w, self.count)
                return ('subtracted', w)

        class WaveformReducerChain:
            def __init__(self, **k):
                st.chain_args = k
                self.config = dict(mapping='mapping', window=3)

            def process(self, w):
                log.append(w)
                return dict(charge=('charge', w), t_pulse=('t_pulse', w))
        for c in (TimeCalibrator, BaselineSubtractor, WaveformReducerChain):
            cx.patch(m, c.__name__, c)
        cx.assume_contract('TimeCalibrator (C12), BaselineSubtractor (C09), WaveformReducerChain (C01-C03) under their contracts')


def extractor(cx, is_mc, modules=0, superpixels=0, **k):
    m = cx.load(M)
    st = Stages(cx, m)
    P = cx.int('P', 0, conc=(0, 5))
    reader = Reader(n_pixels=P, n_samples=cx.int('S', 1), is_mc=is_mc, mapping='mapping', reference_pulse_path='pulse', n_modules=modules,
                    n_superpixels_per_module=superpixels, run_id=cx.int('run'), path='in.tio', camera_version='1.1.0',
                    n_cells=cx.int('cells'), **k)
    return m, st, reader, m.DL1Extractor(reader, 'config.yml')


@unit('C25')
def columns_of_an_event(cx):
    """The columns of an event are its own tags, the pixel numbers, the
    baseline subtracted from it and what the chain gives for the waveforms
    that were time-corrected (not for simulations) and baseline-subtracted."""
    is_mc = cx.choice('is_mc', [False, True])
    m, st, reader, ex = extractor(cx, is_mc)
    cx.ensure('chain', st.chain_args == dict(n_pixels=reader.n_pixels, n_samples=reader.n_samples, mapping='mapping',
                                             reference_pulse_path='pulse', config_path='config.yml')
              if not cx.symbolic else set(st.chain_args) == {'n_pixels', 'n_samples', 'mapping', 'reference_pulse_path', 'config_path'})
    cx.eq('chain pixels', st.chain_args['n_pixels'], reader.n_pixels)
    cx.eq('chain samples', st.chain_args['n_samples'], reader.n_samples)
    cx.ensure('baseline of the run', st.baseline_reader is reader)
    for e in range(cx.choice('events', [1, 2])):
        true = cx.choice('true%d' % e, [None, 'photons%d' % e]) if is_mc else None
        w = Event(iev=cx.int('iev%d' % e), t_cpu=cx.int('t_cpu%d' % e), t_tack=cx.int('t_tack%d' % e), first_cell_id=cx.int('fci%d' % e),
                  mc_true=true)
        d = ex(w)
        tc = w if is_mc else ('calibrated', w)
        bs = ('subtracted', tc)
        cx.keys('columns', d, ['iev', 'pixel', 't_cpu', 't_tack', 'first_cell_id', 'baseline_subtracted', 'charge', 't_pulse'] +
                (['mc_true'] if true else []))
        cx.eq('number', d['iev'], w.iev)
        cx.eq('time', d['t_cpu'], w.t_cpu)
        cx.eq('trigger counter', d['t_tack'], w.t_tack)
        cx.eq('first cell', d['first_cell_id'], w.first_cell_id)
        cx.shape('pixels', d['pixel'], (reader.n_pixels,))
        cx.all('pixels', (reader.n_pixels,), lambda p: (d['pixel'][p], p))
        cx.ensure('baseline', d['baseline_subtracted'] == ('baseline', tc, e + 1))
        cx.ensure('chain columns', d['charge'] == ('charge', bs) and d['t_pulse'] == ('t_pulse', bs))
        cx.ensure('reduced once per event', st.log == [bs])
        del st.log[:]
        if true:
            cx.eq('true charge', d['mc_true'], true)
    cx.ensure('configuration without the mapping', ex.config == dict(window=3))


@unit('C25', bounded='1 to 32 modules of 1 to 16 superpixels (enumerated); any values')
def module_information(cx):
    """Module information is stored under its module and superpixel."""
    nm, nsp = cx.choice('modules', [(1, 1), (1, 16), (11, 4), (32, 16)])
    kinds = ['sn', 'sipm_temp', 'primary_temp']
    val = {k: cx.array(k, (nm,), 'i8') for k in kinds}
    val2 = {k: cx.array(k, (nm, nsp), 'i8') for k in ('dac', 'hvon')}
    m, st, reader, ex = extractor(cx, cx.choice('is_mc', [False, True]), nm, nsp,
                                  get_sn=lambda t: val['sn'][t], get_sipm_temp=lambda t: val['sipm_temp'][t],
                                  get_primary_temp=lambda t: val['primary_temp'][t], get_sp_dac=lambda t, s: val2['dac'][t, s],
                                  get_sp_hvon=lambda t, s: val2['hvon'][t, s])
    for k in kinds:
        d = getattr(ex, k)
        cx.keys(k, d, ['TM%02d' % t for t in range(nm)])
        for t in range(nm):
            cx.eq(k + ' of a module', d['TM%02d' % t], val[k][t])
    for k in val2:
        d = getattr(ex, k)
        cx.keys(k, d, ['TM%02d_SP%02d' % (t, s) for t in range(nm) for s in range(nsp)])
        for t in range(nm):
            for s in range(nsp):
                cx.eq(k + ' of a superpixel', d['TM%02d_SP%02d' % (t, s)], val2[k][t, s])


@unit('C25')
def output_path(cx):
    """The output is next to the input, never the input itself."""
    m = cx.load(M)
    is_mc = cx.choice('is_mc', [False, True])
    base = cx.tmp('')
    name, want = cx.choice('input', [
        ('run_r1.tio', 'run_dl1.h5'), ('run_r0.tio', 'run_r0.h5'), ('run_r1.h5', 'run_dl1.h5'), ('run.tio', 'run.h5'),
        ('run.h5', None)] if not is_mc else [
        ('gamma.simtel.gz', 'gamma_dl1.h5'), ('gamma_r1.simtel.gz', 'gamma_r1_dl1.h5'), ('gamma.h5', None)])
    given = cx.choice('given', [None, '', 'other.h5', 'input', 'dotted'])
    opened = stub_writer(cx, m, ['data'])
    reader = Reader(stream=cx.stream(0, None), n_events=0, n_pixels=1, is_mc=is_mc, path=base + name, mapping='mapping', mcheader={})
    ex = Event(skip_event=lambda w: False, metadata={}, config={}, sn={}, sipm_temp={}, primary_temp={}, dac={}, hvon={})
    out = base + name if given == 'input' else base + './' + name if given == 'dotted' else given and base + given
    expected = {None: want, '': want, 'other.h5': 'other.h5', 'input': None, 'dotted': None}[given]
    args = (reader, ex) if given is None else (reader, ex, out)
    if expected is None:
        cx.must_raise('the input is refused as output', lambda: m.DL1Writer.write_dl1_file(*args), ValueError)
        cx.eq('nothing was written', len(opened), 0)
    else:
        m.DL1Writer.write_dl1_file(*args)
        cx.eq('path', opened[0].path, base + expected)


@unit('C25', bounded='runs of up to 8 events of up to 6 pixels, written with the real pandas/HDF5')
def dl1_file(cx):
    """The file of a run, real or simulated: every processed event once, in
    order, with the values it was given, also when rows are flushed in
    between and arrive in any pixel order."""
    if cx.symbolic:
        cx.cannot('pandas dtypes, sorting and HDF5 files')
    import numpy as np
    import pandas as pd
    m = cx.load(M)
    D = cx.load('CHECLabPy.core.io').DL1Reader
    N, P = cx.int('N', 0, 8), cx.int('P', 1, 6)
    is_mc = cx.choice('is_mc', [False, True])
    unit_ = cx.choice('unit', [1e3, 3e7, 6e8])
    cx.patch(pd.DataFrame, 'memory_usage', lambda df, index=True, deep=False: pd.Series([int(unit_) * len(df)]))
    skip = cx.array('skip', (N,), 'u1', 0, 2)
    if N:
        skip = np.where(skip > 1, 0, skip)
    which = cx.array('which', (N,), 'bool')
    step = cx.array('step', (N,), 'i4', 1, 3)
    iev = np.cumsum(step) + cx.int('iev0', 0, conc=(0, 2 ** 20))
    times = [pd.Timestamp(10 ** 18 + int(k) * 12345678901) for k in range(N)]
    tack = cx.array('tack', (N,), 'i8', 0, 2 ** 30)
    tack = tack.astype('i8') * 2 ** 29 + 1
    fci = cx.array('fci', (N,), 'u2')
    charge = cx.array('charge', (N, P), 'f4')
    true = cx.array('true', (N, P), 'i4', 0, 100)
    order = [np.random.RandomState(k).permutation(P) if cx.choice('shuffled', [False, True]) else np.arange(P) for k in range(N)]
    with_true = cx.choice('with_true', [False, True])
    reader = Reader(n_events=N, n_pixels=P, is_mc=is_mc, path=cx.tmp('run.simtel.gz' if is_mc else 'run_r1.tio'), n_modules=1,
                    mcheader=dict(obs_id=5, spectral_index=-2.5), mc=None, pointing=None)

    def events():
        for k in range(N):
            reader.mc = dict(iev=int(iev[k]), t_cpu=times[k], energy=float(k) / 4)
            reader.pointing = dict(iev=int(iev[k]), t_cpu=times[k], azimuth_raw=float(k) / 2)
            yield Event(k=k, t_cpu=times[k], stale=bool(skip[k] and which[k]), missing_packets=bool(skip[k] and not which[k]))

    class S:
        def __iter__(self):
            return events()
    reader.stream = S()
    reader.mapping = pd.DataFrame(dict(pixel=np.arange(P)))
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        reader.mapping.metadata = dict(cfgpath='x')

    class Extractor:
        config = dict(window=3)
        sn, sipm_temp, primary_temp = dict(TM00=4), dict(TM00=5.5), dict(TM00=6.5)
        dac, hvon = dict(TM00_SP00=7), dict(TM00_SP00=8)
        skip_event = staticmethod(m.DL1Extractor.skip_event)

        @property
        def metadata(self):
            return dict(is_mc=is_mc, n_pixels=P, n_modules=1, n_superpixels_per_module=1)

        def __call__(self, w):
            o = order[w.k]
            d = dict(iev=iev[w.k], pixel=o, t_cpu=w.t_cpu, t_tack=tack[w.k], first_cell_id=fci[w.k], charge=charge[w.k][o].astype('f8'))
            if with_true:
                d['mc_true'] = true[w.k][o]
            return d
    m.DL1Writer.write_dl1_file(reader, Extractor())
    done = [k for k in range(N) if not skip[k]]
    with D(cx.tmp('run_dl1.h5')) as r:
        md = r.metadata
        cx.eq('processed', md['n_events'], len(done))
        cx.eq('skipped', md['n_skipped'], N - len(done))
        cx.ensure('start', md['start_time'] == (times[done[0]] if done else None))
        cx.ensure('end', md['end_time'] == (times[done[-1]] if done else None))
        cx.eq('serial number', r.get_sn(0), 4)
        cx.eq('dac', r.get_sp_dac(0, 0), 7)
        if not done:
            return
        df = r.load_entire_table(force=True)
        cx.ensure('columns', list(df.columns) == ['iev', 'pixel', 't_cpu', 't_tack', 'first_cell_id', 'charge'] + (['mc_true'] if with_true else []))
        e = np.repeat(done, P)
        p = np.tile(np.arange(P), len(done))
        cx.eq('rows', len(df), len(e))
        cx.ensure('event numbers', (df['iev'].values == iev[e]).all())
        cx.ensure('pixels', (df['pixel'].values == p).all())
        cx.ensure('times', all(a == times[k] for a, k in zip(df['t_cpu'], e)))
        cx.ensure('trigger counters', (df['t_tack'].values == tack[e].astype('u8')).all())
        cx.ensure('first cells', (df['first_cell_id'].values == fci[e]).all())
        cx.ensure('charges', (df['charge'].values == charge[e, p]).all())
        if with_true:
            cx.ensure('true charges', (df['mc_true'].values == true[e, p]).all())
        if is_mc:
            for name, col, f in (('mc', 'energy', 4), ('pointing', 'azimuth_raw', 2)):
                t = r.read(name, force=True)
                cx.ensure(name + ' rows', list(t['iev']) == [iev[k] for k in done])
                cx.ensure(name + ' values', list(t[col]) == [k / f for k in done])
            cx.eq('simulation header', r.get_metadata('mc', 'mcheader')['obs_id'], 5)
        k = done[-1]
        x = r[int(iev[k])]
        cx.ensure('event by number', (x['iev'].values == iev[k]).all() and len(x) == P and (x['charge'].values == charge[k]).all())


class Rows:
    """A pandas DataFrame, as far as preparing the rows for the file uses it:
    the columns, and by what the rows were put in order."""

    def __init__(self, cx, cols, order=None):
        self.cx, self.cols, self.order = cx, dict(cols), order

    @property
    def columns(self):
        return list(self.cols)

    def select_dtypes(self, include=None, exclude=None):
        if exclude is not None or [str(x) for x in include] not in (['float'], ['floating']):
            self.cx.cannot('select_dtypes(%s, %s)' % (include, exclude))
        return Rows(self.cx, {k: v for k, v in self.cols.items() if v.dtype.name.startswith('float')}, self.order)

    def apply(self, f, **k):
        return Rows(self.cx, {c: f(v, **k) for c, v in self.cols.items()}, self.order)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return self.cols[k]
        return Rows(self.cx, {c: self.cols[c] for c in k}, self.order)

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.cols[k] = v
        else:
            if not isinstance(v, Rows) or list(k) != v.columns or v.order != self.order:
                self.cx.cannot('assignment of columns')
            for c in k:
                self.cols[c] = v.cols[c]

    def copy(self):
        return Rows(self.cx, self.cols, self.order)

    def sort_values(self, by, **k):
        if k:
            self.cx.cannot('sort_values options')
        return Rows(self.cx, self.cols, [by] if isinstance(by, str) else list(by))


@unit('C25', fallback='C25.dl1_file')
def rows_of_the_file(cx):
    """Rows are put in order of event and pixel; every column keeps the values
    of its rows, in the types of the file."""
    m = cx.load(M)
    N = cx.int('N', 1, conc=(1, 12))
    event, pixel = cx.array('iev', (N,), 'i8', 0, 2 ** 32 - 1), cx.array('pixel', (N,), 'i8', 0, 2 ** 32 - 1)
    if not cx.symbolic:
        event, pixel = event % 3 + 2 ** 32 - 3, pixel % 5
    cols, types = {}, {}

    def column(name, a, dtype):
        cols[name], types[name] = a, dtype
    column('charge', cx.array('charge', (N,), 'f8'), 'float32')
    column('iev', event, 'uint32')
    with_pixel = cx.choice('pixel', [True, False])
    if with_pixel:
        column('pixel', pixel, 'uint32')
    if cx.choice('cell', [True, False]):
        column('first_cell_id', cx.array('first_cell_id', (N,), 'i8', 0, 2 ** 16 - 1), 'uint16')
    if cx.choice('tack', [True, False]):
        column('t_tack', cx.array('t_tack', (N,), 'i8', 0, 2 ** 63 - 1), 'uint64')
    if cx.choice('true', [True, False]):
        column('mc_true', cx.array('mc_true', (N,), 'i8', 0, 2 ** 32 - 1), 'uint32')
    column('t_pulse', cx.array('t_pulse', (N,), 'f4'), 'float32')
    column('saturated', cx.array('saturated', (N,), 'i8'), 'int64')
    if cx.symbolic:
        def to_numeric(a, **k):
            if k != dict(downcast='float'):
                cx.cannot('to_numeric options')
            # the smallest float type; the values are kept up to rounding
            return a.astype('float32')
        cx.patch(m, 'pd', cx.module('pandas', to_numeric=to_numeric))
        cx.assume_contract('pandas: select_dtypes picks the float columns, to_numeric(downcast=float) gives the smallest float type with '
                           'the same values up to rounding, sort_values reorders whole rows')
        out = m.DL1Writer._prepare_before_append(Rows(cx, cols))
        order, got = out.order, out.cols
        cx.ensure('order of the rows', order == (['iev', 'pixel'] if with_pixel else None))
        place = lambda k: k
    else:
        import numpy as np
        import pandas as pd
        keep = {k: np.array(v) for k, v in cols.items()}
        out = m.DL1Writer._prepare_before_append(pd.DataFrame(cols))
        got = {k: out[k].values for k in out.columns}
        cols = keep
        order = np.lexsort([pixel, event]) if with_pixel else np.arange(N)
        if with_pixel and len(set(zip(event, pixel))) < N:
            cx.assume(False)
        place = lambda k: order[k]
    cx.keys('columns', got, list(types))
    for c, t in types.items():
        cx.shape(c, got[c], (N,))
        if c != 'charge':  # (doubles with no equal single stay doubles)
            cx.ensure('type of ' + c, got[c].dtype.name == t)
        cx.all('values of ' + c, (N,), lambda k: (got[c][k], cols[c][place(k)]))


class Simulation(Reader):
    """A reader of simulations: mc and pointing are those of the event read
    last."""

    @property
    def mc(self):
        return {'what': 'mc', 'event': self.now[0]}

    @property
    def pointing(self):
        return {'what': 'pointing', 'event': self.now[0]}


@unit('C25', cost=3, fallback='C25.dl1_file')
def simulated_events(cx):
    """A simulated run: the simulation parameters and the pointing of every
    event that is written, once and in order."""
    r = Run(cx)
    opened = stub_writer(cx, r.m, ['data', 'mc', 'pointing'])
    now = [None]

    def event(k):
        now[0] = k
        return r.event(k)
    reader = Simulation(stream=cx.stream(r.N, event), n_events=r.N, n_pixels=cx.int('P', 1, conc=(1, 4)), is_mc=True, now=now,
                        path='/data/run.simtel.gz', mapping='mapping', mcheader=dict(obs_id=5))
    ex = cx.code('''
    class Extractor:
        config, sn, sipm_temp, primary_temp, dac, hvon = {}, {}, {}, {}, {}, {}
        skip_event = staticmethod(skip)
        def __call__(self, waveforms):
            return {'what': 'data', 'event': waveforms.k}
    ''', skip=r.m.DL1Extractor.skip_event).Extractor()
    ex.metadata = dict(run_id=17)
    out = cx.tmp('out/sim_dl1.h5')
    r.m.DL1Writer.write_dl1_file(reader, ex, out)
    cx.eq('one file', len(opened), 1)
    w = opened[0]
    cx.eq('closed', w.finished, 1)
    cx.keys('tables', w.tables, ['data', 'mc', 'pointing'])
    for t in ('data', 'mc', 'pointing'):
        cx.filtered(t + ' of the events', w.tables[t], r.N, r.processed, lambda k: (t, k), get=lambda d: (d['what'], d['event']))
    n = cx.sum(r.N, lambda k: cx.ite(r.processed(k), 1, 0))
    cx.eq('events processed', w.meta['data']['metadata']['n_events'], n)
    cx.eq('simulation header', w.meta['mc']['mcheader']['obs_id'], 5)


@unit('C25')
def every_file(cx):
    """Each input file is reduced, once and in order, from its own reader, up
    to the number of events and with the configuration asked for, into its own
    output."""
    import sys
    m = cx.load(M)
    cx.assume_contract('WaveformReader.from_path (C26), DL1Extractor (units columns_of_an_event, module_information) and '
                       'DL1Writer.write_dl1_file (units every_event, output_path) under their contracts')
    opened, made, written = [], [], []

    class Thing:
        """A reader or an extractor: like the others in everything but its file."""
        n_pixels, n_samples, n_modules, n_superpixels_per_module, n_events, n_cells, run_id = 8, 16, 2, 1, 30, 32, 4
        is_mc, camera_version, index = False, '1.1.0', 0

        def __init__(self, what, path, reader=None):
            self.what, self.path, self.reader = what, path, reader

        def __getattr__(self, k):
            if k.startswith(('_', 'pv_')):
                raise AttributeError(k)
            cx.cannot('%s of the reader is not part of the contract' % k)

    def reader_of(path, max_events):
        opened.append((path, max_events))
        return Thing('reader', path)

    def extractor_of(reader, config_path):
        made.append((reader, config_path))
        return Thing('extractor', reader.path, reader)
    cx.patch(m.WaveformReader, 'from_path', cx.code("""
    def from_path(path, max_events=None):
        return reader_of(path, max_events)
    """, reader_of=reader_of).from_path)
    cx.patch(m, 'DL1Extractor', cx.code("""
    def DL1Extractor(reader, config_path):
        return extractor_of(reader, config_path)
    """, extractor_of=extractor_of).DL1Extractor)
    cx.patch(m.DL1Writer, 'write_dl1_file', cx.code("""
    def write_dl1_file(reader, dl1_extractor, output_path=None):
        written.append((reader, dl1_extractor, output_path))
    """, written=written).write_dl1_file)
    n = cx.choice('files', [1, 2, 3])
    paths = ['run%d_r1.tio' % (7 - i) for i in range(n)]
    argv = ['extract_dl1', cx.choice('-f', ['-f', '--files'])] + paths
    out = cx.choice('output', [None, 'out.h5']) if n == 1 else None
    if out:
        argv += [cx.choice('-o', ['-o', '--output']), out]
    most = cx.choice('maxevents', [None, 1, 20])
    if most:
        argv += [cx.choice('-n', ['-n', '--maxevents']), str(most)]
    config = cx.choice('config', [None, 'columns.yml'])
    if config:
        argv += [cx.choice('-c', ['-c', '--config']), config]
    cx.patch(sys, 'argv', argv)
    m.main()
    cx.ensure('readers', opened == [(p, most) for p in paths])
    cx.ensure('extractors', [(r.what, r.path, c) for r, c in made] == [('reader', p, config) for p in paths])
    cx.ensure('files', [(r.what, r.path, e.what, o) for r, e, o in written] == [('reader', p, 'extractor', out) for p in paths])
    cx.ensure('each with its own extractor', all(e.reader is r for r, e, o in written))
