"""Contracts of the per-pixel extraction of spectra (C28)."""
from pydv.registry import unit

M = 'CHECLabPy.scripts.extract_spe'


class Recorder:
    """A dictionary shared between processes."""

    def __init__(self):
        self.log = []

    def __setitem__(self, k, v):
        self.log.append((k, v))


class Fitter:
    """A spectrum fitter under its contract (C18): apply() sets the results of
    the charges it is given, whatever was fitted before."""

    def __init__(self, n):
        self.n_illuminations = n
        self.fit_result_values = dict(spe=None)
        self.fit_result_errors = dict(spe=None)
        self.charge_histogram = self.fit_result_curve = None
        self.count = 0

    def apply(self, *charges):
        self.count += 1
        self.fit_result_values['spe'] = ('value', charges)
        self.fit_result_errors['spe'] = ('error', charges)
        self.charge_histogram = [('x', charges), ('y', charges), ('edges', charges)]
        self.fit_result_curve = [('fit x', charges), ('fit y', charges)]


def applier(cx, n, m=None):
    m = m or cx.load(M)
    made = []

    class Mgr:
        def dict(self):
            made.append(Recorder())
            return made[-1]
    cx.patch(m, 'Manager', Mgr)
    cx.assume_contract('multiprocessing: Manager().dict() is shared by all processes; Pool.map applies the function once to every '
                       'item, in any order and in processes that share nothing else')
    return m, Fitter(n), made


TAKE = """
class Pool:
    def __init__(self, n):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return None
    def map(self, f, items, chunksize=None):
        given.append(f)
        return []
    def close(self):
        pass
    def join(self):
        pass
    imap = map
    imap_unordered = map
"""


@unit('C28', fallback='C28.result_file')
def one_pixel(cx):
    """The results of a pixel are those of its own charges of every
    illumination, and stored under its number only -- whatever was fitted
    before."""
    n = cx.choice('illuminations', [1, 2, 3])
    m, fitter, made = applier(cx, n)
    a = m.PixelFitApplier(fitter)
    P = cx.int('P', 1, conc=(1, 5))
    N = [cx.int('N%d' % i, 0, conc=(0, 6)) for i in range(n)]
    charges = [cx.array('charges%d' % i, (N[i], P), 'f8') for i in range(n)]
    # the function handed to the pool is the one that processes fit pixels with
    given = []
    cx.patch(m, 'Pool', cx.code(TAKE, given=given).Pool)
    a.multiprocess(2, *charges)
    cx.eq('one function for the pool', len(given), 1)
    pixel = cx.int('pixel', 0, P - 1)
    if cx.choice('before', [False, True]):
        fitter.apply(*[cx.array('other%d' % i, (2,), 'f8') for i in range(n)])
    before = fitter.count
    vals, errs = fitter.fit_result_values, fitter.fit_result_errors
    given[0](pixel)
    cx.eq('fitted once', fitter.count, before + 1)
    mine = fitter.fit_result_values['spe'][1]
    cx.eq('charges of every illumination', len(mine), n)
    for i in range(n):
        cx.shape('charges', mine[i], (N[i],))
        cx.all('charges of the pixel', (N[i],), lambda e: (mine[i][e], charges[i][e, pixel]))
    cx.eq('three tables', len(made), 3)
    for name, d in (('values', a.pixel_values), ('errors', a.pixel_errors), ('arrays', a.pixel_arrays)):
        cx.ensure(name + ' are shared', any(d is x for x in made))
        cx.eq(name + ' stored once', len(d.log), 1)
        if len(d.log) == 1:
            cx.eq(name + ' under the pixel', d.log[0][0], pixel)
            cx.eq('pixel number in the ' + name, d.log[0][1]['pixel'], pixel)
    v, e, r = a.pixel_values.log[0][1], a.pixel_errors.log[0][1], a.pixel_arrays.log[0][1]
    cx.keys('values', v, ['spe', 'pixel'])
    cx.keys('errors', e, ['spe', 'pixel'])
    cx.keys('arrays', r, ['pixel', 'charge_hist_x', 'charge_hist_y', 'charge_hist_edges', 'fit_x', 'fit_y'])
    h, c = fitter.charge_histogram, fitter.fit_result_curve
    cx.ensure('value', v['spe'] is vals['spe'])
    cx.ensure('error', e['spe'] is errs['spe'])
    cx.ensure('histogram', r['charge_hist_x'] is h[0] and r['charge_hist_y'] is h[1] and r['charge_hist_edges'] is h[2])
    cx.ensure('curve', r['fit_x'] is c[0] and r['fit_y'] is c[1])
    # fitting another pixel leaves what was stored
    fitter.apply(*[cx.array('next%d' % i, (2,), 'f8') for i in range(n)])
    cx.ensure('stored values are kept', v is not fitter.fit_result_values and v['spe'] is not fitter.fit_result_values['spe'])
    cx.ensure('stored errors are kept', e is not fitter.fit_result_errors and e['spe'] is not fitter.fit_result_errors['spe'])


APPLY = """
def apply_pixel(self, pixel):
    box[0].append(pixel)

class Pool:
    def __init__(self, n):
        self.n = n
        sizes.append(n)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return None
    def map(self, f, items, chunksize=None):
        for x in items:
            f(x)
    def close(self):
        pass
    def join(self):
        pass
    imap = map
    imap_unordered = map
"""


@unit('C28', fallback='C28.result_file')
def every_pixel(cx):
    """Every pixel is fitted once, in sequence or by a pool."""
    n = cx.choice('illuminations', [1, 2])
    m, fitter, made = applier(cx, n)
    box, sizes = [[]], []
    s = cx.code(APPLY, box=box, sizes=sizes)
    cx.patch(m, 'Pool', s.Pool)
    if not hasattr(m.PixelFitApplier, '_apply_pixel'):
        cx.cannot('no PixelFitApplier._apply_pixel to stand for the fit of a pixel')
    cx.patch(m.PixelFitApplier, '_apply_pixel', s.apply_pixel)
    a = m.PixelFitApplier(fitter)
    again = cx.choice('used before', [False, True])
    multi = cx.choice('multi', [False, True])
    for turn in (['earlier ', ''] if again else ['']):
        P = cx.int(turn + 'P', 1, conc=(1, 9))
        charges = [cx.array('%scharges%d' % (turn, i), (cx.int('%sN%d' % (turn, i), 0, conc=(0, 3)), P), 'f8') for i in range(n)]
        del sizes[:]
        box[0] = []
        if multi:
            a.multiprocess(3, *charges)
            cx.ensure('processes', sizes == [3])
        else:
            a.process(*charges)
        cx.eq('illuminations', len(a.charges), n)
        for i in range(n):
            cx.ensure('charges handed on', a.charges[i] is charges[i])
        cx.seq(turn + 'pixels', box[0], P, lambda k, p: (p, k))


class RealFitter(Fitter):
    parameters = []

    def apply(self, *charges):
        import numpy as np
        self.fit_result_values = dict(spe=float(sum(c.sum() for c in charges)), lambda_0=float(len(charges)))
        self.fit_result_errors = dict(spe=float(sum((c * (i + 2)).sum() for i, c in enumerate(charges))))
        self.charge_histogram = [np.arange(4.) + charges[0][0], np.arange(4.) * charges[-1][0], np.arange(5.)]
        self.fit_result_curve = [np.arange(3.) - charges[0][0], np.arange(3.) * charges[0][0]]


@unit('C28', bounded='up to 7 pixels, 3 illuminations and 2 processes; real pandas, HDF5 files and processes')
def result_file(cx):
    """The tables of the result file are ordered by pixel and hold each
    pixel's results."""
    if cx.symbolic:
        cx.cannot('pandas, HDF5 files and processes')
    import sys
    import numpy as np
    import pandas as pd
    import warnings
    m = cx.load(M)
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    n, P = cx.int('illuminations', 1, 3), cx.int('P', 1, 7)
    how = cx.choice('how', ['sequence', 'pool', 'any order', 'any order'])
    data = []
    paths = []
    for i in range(n):
        N = cx.int('N%d' % i, 1, 4)
        c = cx.array('c%d' % i, (N, P), 'f4')
        data.append(c)
        paths.append(cx.tmp('run%d_dl1.h5' % i))
        mapping = pd.DataFrame(dict(pixel=np.arange(P)))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mapping.metadata = dict(cfgpath='x')
        with HDF5Writer(paths[-1]) as w:
            w.append(pd.DataFrame(dict(iev=np.repeat(np.arange(N), P), pixel=np.tile(np.arange(P), N), charge=c.ravel(), other=-c.ravel())))
            w.add_mapping(mapping)
            w.add_metadata(n_events=N, n_pixels=P)
    p = type('p', (), dict(name='lambda_', initial=1))
    RealFitter.parameters = [p]
    cx.patch(m.SpectrumFitterFactory, 'produce', classmethod(lambda cls, product_name, **k: RealFitter(k['n_illuminations'])))
    order = list(range(P))
    cx.rng.shuffle(order)

    class Pool:
        def __init__(self, k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def map(self, f, items):
            items = list(items)
            for k in order:
                f(items[k])
    if how == 'any order':
        cx.patch(m, 'Pool', Pool)

        class Mgr:
            dict = staticmethod(dict)
        cx.patch(m, 'Manager', Mgr)
    elif how == 'sequence':
        class Mgr2:
            dict = staticmethod(dict)
        cx.patch(m, 'Manager', Mgr2)
    out = cx.tmp('spe.h5')
    cx.patch(sys, 'argv', ['extract_spe', '-f'] + paths + ['-o', out, '-C', 'charge', '--n_processes', '1' if how == 'sequence' else '2'])
    m.main()
    with HDF5Reader(out) as r:
        t = {k: r.read(k) for k in ('values', 'errors', 'arrays')}
    for k in t:
        cx.ensure(k + ' are ordered by pixel', list(t[k].index) == list(range(P)))
    for q in range(P):
        f = RealFitter(n)
        f.apply(*[c[:, q] for c in data])
        cx.ensure('value', t['values']['spe'][q] == f.fit_result_values['spe'])
        cx.ensure('error', t['errors']['spe'][q] == f.fit_result_errors['spe'])
        for k, x in (('charge_hist_x', f.charge_histogram[0]), ('charge_hist_y', f.charge_histogram[1]),
                     ('charge_hist_edges', f.charge_histogram[2]), ('fit_x', f.fit_result_curve[0]), ('fit_y', f.fit_result_curve[1])):
            cx.ensure(k, (np.asarray(t['arrays'][k][q]) == x).all())


class Table:
    """A pandas DataFrame of the results of the pixels."""

    def __init__(self, rows, index=None, order=None, **k):
        self.rows, self.at, self.order = rows, index, order

    def set_index(self, name):
        return Table(self.rows, name, self.order)

    def reset_index(self):
        return Table(self.rows, None, self.order)

    def sort_index(self):
        return Table(self.rows, self.at, self.at)

    def sort_values(self, by):
        return Table(self.rows, self.at, by[0] if isinstance(by, list) and len(by) == 1 else by)


def results(cx, name, P):
    if cx.symbolic:
        return Results(name)
    pixels = list(range(P))
    cx.rng.shuffle(pixels)
    return {q: dict(spe='%s of %d' % (name, q), pixel=q) for q in pixels}


class Results:
    """What the pixels left in a shared dictionary, in any order."""

    def __init__(self, name):
        self.name = name

    def values(self):
        return ['rows of the ' + self.name]


EXTRACTION = """
class Reader(DL1Reader):
    def __init__(self, path):
        self.path = path
        self.store = Store(path)
        self._event_lookup = self._monitor = None
    def get_metadata(self, key='data', name='metadata'):
        return runs[self.path][key][name]
    def get_mapping(self):
        return 'mapping of ' + self.path

class Store:
    def __init__(self, path):
        self.path = path
    def close(self):
        self.path = None
    def select_column(self, key, column):
        return runs[self.path][key]['columns'][column]

class Applier:
    def __init__(self, fitter):
        self.fitter = fitter
        self.pixel_values, self.pixel_errors, self.pixel_arrays = results()
        self.calls = []
        appliers.append(self)
    def process(self, *charges):
        self.calls.append((1, charges))
    def multiprocess(self, n, *charges):
        self.calls.append((n, charges))

class Writer(HDF5Writer):
    def __init__(self, path):
        self.path = path
        self.tables = {}
        self.mapping = self.stored = None
        self.closed = 0
        written.append(self)
    def finish(self):
        self.closed += 1
    def write(self, **k):
        self.tables.update(k)
    def add_mapping(self, mapping):
        self.mapping = mapping
    def add_metadata(self, key='data', name='metadata', **k):
        self.stored = k
"""


@unit('C28', fallback='C28.result_file')
def extraction(cx):
    """The charges of every run, event by event, are handed to the extraction,
    and what it leaves for the pixels becomes the tables of the file, by
    pixel."""
    import sys
    if cx.symbolic:
        from pydv.pdmodel import SSeries as Series
    else:
        from pandas import Series
    m = cx.load(M)
    n = cx.choice('illuminations', [1, 2, 3])
    P = cx.int('P', 1, conc=(1, 6))
    cx.assume_contract('DL1Reader (C24), HDF5Writer (C22, C23), the spectrum fitters (C18, C19) and PixelFitApplier (units one_pixel, '
                       'every_pixel) under their contracts; pandas: DataFrame(list of rows), set_index, sort_index, sort_values')
    paths = ['run%d_dl1.h5' % i for i in range(n)]
    runs, N, flat = {}, [], []
    for i, path in enumerate(paths):
        N.append(cx.int('N%d' % i, 0, conc=(0, 5)))
        flat.append(cx.array('charge%d' % i, (N[i] * P,), 'f4'))
        other = cx.array('other%d' % i, (N[i] * P,), 'f4')
        runs[path] = dict(data=dict(metadata=dict(n_events=N[i], n_pixels=P), columns=dict(charge=Series(flat[i]), other=Series(other))))
    appliers, written, fitters = [], [], []
    tables = ['values', 'errors', 'arrays']
    s = cx.code(EXTRACTION, runs=runs, appliers=appliers, written=written, DL1Reader=m.DL1Reader, HDF5Writer=m.HDF5Writer,
                results=lambda: [results(cx, t, P) for t in tables])
    cx.patch(m, 'DL1Reader', s.Reader)
    cx.patch(m, 'HDF5Writer', s.Writer)
    cx.patch(m, 'PixelFitApplier', s.Applier)
    if cx.symbolic:
        cx.patch(m, 'pd', cx.module('pandas', DataFrame=Table))
    p = type('p', (), dict(name='lambda_', initial=1))

    def produce(product_name, n_illuminations):
        f = Fitter(n_illuminations)
        f.parameters, f.loaded, f.load_config = [p], [], lambda path: f.loaded.append(path)
        fitters.append((product_name, f))
        return f
    names = ['SiPMGentileFitter', 'MAPMFitter']
    cx.patch(m, 'SpectrumFitterFactory', cx.module('factory', produce=produce, subclass_names=names))
    argv = ['extract_spe', '-f'] + paths + ['-o', 'spe.h5', '-C', 'charge']
    k = cx.choice('processes', [None, 1, 3])
    if k is not None:
        argv += ['--n_processes', str(k)]
    name = cx.choice('fitter', [None] + names)
    if name is not None:
        argv += ['-s', name]
    config = cx.choice('config', [None, 'fit.yml'])
    if config is not None:
        argv += ['-c', config]
    cx.patch(sys, 'argv', argv)
    m.main()
    cx.eq('one fitter', len(fitters), 1)
    cx.ensure('fitter asked for', fitters[0][0] == (name or 'SiPMGentileFitter'))
    f = fitters[0][1]
    cx.eq('illuminations', f.n_illuminations, n)
    cx.ensure('configuration', f.loaded == ([] if config is None else [config]))
    cx.eq('one extraction', len(appliers), 1)
    a = appliers[0]
    cx.ensure('with the fitter', a.fitter is f)
    cx.eq('run once', len(a.calls), 1)
    cx.eq('processes', a.calls[0][0], k or 1)
    charges = a.calls[0][1]
    cx.eq('charges of every run', len(charges), n)
    for i in range(n):
        cx.shape('charges', charges[i], (N[i], P))
        cx.all('charges', (N[i], P), lambda e, q: (charges[i][e, q], flat[i][e * P + q]))
    cx.eq('one file', len(written), 1)
    w = written[0]
    cx.ensure('path', w.path == 'spe.h5')
    cx.eq('closed', w.closed, 1)
    cx.keys('tables', w.tables, tables)
    for t, d in w.tables.items():
        if not cx.symbolic:
            cx.ensure(t + ' by pixel, in order', d.index.name == 'pixel' and list(d.index) == list(range(P)))
            cx.ensure(t + ' of the pixels', [list(d.columns)] + d.values.tolist() == [['spe']] + [['%s of %d' % (t, q)] for q in range(P)])
            continue
        cx.ensure(t + ' of the pixels', d.rows == ['rows of the ' + t])
        cx.ensure(t + ' by pixel', d.at == 'pixel')
        cx.ensure(t + ' in order', d.order == 'pixel')
    cx.ensure('mapping', w.mapping == 'mapping of ' + paths[0])
    cx.ensure('files', list(w.stored['files']) == paths)
    cx.eq('number of illuminations', w.stored['n_illuminations'], n)
