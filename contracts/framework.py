"""Contracts of the reducer framework (C01, C02, C03)."""
from pydv.registry import unit
from reducers import PKG, waves, reference_pulse, load_cc

CORE = 'CHECLabPy.core.'


# --------------------------------------------------------------------- C01
def isolation(cx, make, P, S, dtype='f4', begin=None, end=None):
    """make() builds a reducer.  Whatever events one reducer has seen, its
    next result is that of a fresh reducer, and the event is not altered."""
    def event(tag):
        w = cx.array('w_' + tag, (P, S), dtype)
        return w
    used = make()
    cx.history(used, lambda tag: used.process(event(tag)))
    w = event('now')
    w0 = cx.snapshot(w)
    if begin:
        begin(w)
    out = used.process(w)
    cx.unchanged('the waveforms handed in', w, w0)
    kept = {c: cx.snapshot(v) if cx.is_array(v) else v for c, v in out.items()}
    ref = make().process(cx.snapshot(w0))
    cx.keys('columns', out, list(ref))
    cx.ensure('there are columns', len(ref) > 0)
    for c in ref:
        if cx.is_array(ref[c]):
            cx.same(c, out[c], ref[c])
        else:
            cx.eq(c, out[c], ref[c])
    # the same reducer once more on the same event: no self-interference
    again = used.process(w)
    for c in ref:
        if cx.is_array(ref[c]):
            cx.same(c + ' (again)', again[c], ref[c])
        else:
            cx.eq(c + ' (again)', again[c], ref[c])
    # what was returned stays as it is when further events are processed
    if end:
        end()
    used.process(event('later'))
    for c in out:
        if cx.is_array(kept[c]):
            cx.unchanged(c + ' (kept)', out[c], kept[c])


def window(cx, t_name, size=None):
    """Window configuration: all entries given, or all left out."""
    if not cx.choice('set_window', [False, True]):
        return {}
    kw = dict(window_shift=cx.int('window_shift', 0, 9, conc=(0, 9)))
    if size:
        kw['window_size'] = cx.int('window_size', 1, 9, conc=(1, 9))
    if cx.choice('set_t', [False, True]):
        kw[t_name] = cx.int(t_name, 10, 10, conc=(10, 10))
    return kw


@unit('C01')
def average_wf_isolated(cx):
    m = cx.load(PKG + 'average_wf')
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 20, conc=(20, 45))
    kw = window(cx, 't_extract', True)
    isolation(cx, lambda: m.AverageWF(P, S, **kw), P, S)


@unit('C01')
def saturation_isolated(cx):
    m = cx.load(PKG + 'saturation')
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 20, conc=(20, 45))
    kw = window(cx, 't_event')
    isolation(cx, lambda: m.Saturation(P, S, **kw), P, S)


@unit('C01')
def common_isolated(cx):
    m = cx.load(PKG + 'common')
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 1, conc=(1, 45))
    isolation(cx, lambda: m.Common(P, S), P, S)


@unit('C01', cost=3)
def cross_correlation_isolated(cx):
    m, K, y, y1 = load_cc(cx)
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 1, conc=(1, 45))
    isolation(cx, lambda: m.CrossCorrelation(P, S, reference_pulse_path='ref.txt'), P, S)


@unit('C01', cost=3)
def cross_correlation_local_isolated(cx):
    m, K, y, y1 = load_cc(cx)
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 1, conc=(1, 45))
    isolation(cx, lambda: m.CrossCorrelationLocal(P, S, reference_pulse_path='ref.txt'), P, S)


@unit('C01')
def superpixel_isolated(cx):
    m = cx.load(PKG + 'superpixel')
    N = cx.int('N', 1, conc=(1, 4))
    S = cx.int('S', 1, conc=(1, 30))
    isolation(cx, lambda: m.SPAmplitude(N * 4, S), N * 4, S)


@unit('C01', runs_factor=.1)
def flasher_isolated(cx):
    m = cx.load(PKG + 'flag_flasher')
    S = cx.int('S', 1, conc=(1, 4))
    isolation(cx, lambda: m.FlagFlashers(2048, S), 2048, S)


@unit('C01', cost=3)
def timing_isolated(cx):
    m = cx.load(PKG + 'timing')
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 20, conc=(20, 45))
    kw = {}
    if cx.choice('set_window', [False, True]):
        kw = dict(window_shift=cx.int('window_shift', 0, 9, conc=(0, 9)), window_size=cx.int('window_size', 1, 9, conc=(1, 9)))
    if cx.choice('set_t', [False, True]):
        kw['t_extract'] = cx.int('t_extract', 10, 10, conc=(10, 10))
    cx.assume_contract('obtain_pulse_timing by its contract (unit C07.pulse_timing): the waveforms are not altered and the '
                       'result is a function of the samples and the window')
    calls = []

    def fake(waveforms, start, end):
        """Equal arguments, equal results; anything for other arguments."""
        new = cx.snapshot(waveforms)
        if seeing['now'] and seeing['args']:
            w1, s1, e1, res = seeing['args']
            cx.same('samples analysed', new, w1)
            cx.eq('window start', start, s1)
            cx.eq('window end', end, e1)
        else:
            n = len(calls)
            calls.append(n)
            res = tuple(cx.array('timing%d_%d' % (n, k), (P,), 'f8') for k in range(8))
            if seeing['now']:
                seeing['args'] = (new, start, end, res)
        return tuple(cx.snapshot(r) for r in res)
    seeing = dict(now=False, args=None)
    cx.patch(m, 'obtain_pulse_timing', fake)

    def now(w):
        seeing['now'] = True
    isolation(cx, lambda: m.Timing(P, S, **kw), P, S, begin=now, end=lambda: seeing.update(now=False))


# --------------------------------------------------------------------- C02
def settings(cx, names):
    """Every column: not mentioned, switched on, or switched off (with any of
    the ways of saying so)."""
    kw = {}
    on, off = cx.choice('spelling', [(True, False), (1, 0), ('yes', None)])
    for n in names:
        v = cx.choice('set_' + n, ['-', 'on', 'off'])
        if v != '-':
            kw[n] = on if v == 'on' else off
    return kw


def family(cx, m):
    """A parent, a child that overrides a column and adds one, and a grandchild
    that overrides both and adds one; every column returns its own tag."""
    column, Base = m.column, m.WaveformReducer
    cx.patch(column, 'registry', dict())

    def col(name, tag, owner):
        def f(self):
            return (tag, self.waveforms)
        f.__name__ = name
        f.__qualname__ = owner + '.' + name
        f.__doc__ = None
        return column(f)

    class Parent(Base):
        pass

    Parent = type(Base)('Parent', (Base,), dict(pa=col('pa', 'P.pa', 'X'), pb=col('pb', 'P.pb', 'X')))
    Child = type(Base)('Child', (Parent,), dict(pb=col('pb', 'C.pb', 'X'), ca=col('ca', 'C.ca', 'X')))
    Grand = type(Base)('Grand', (Child,), dict(pa=col('pa', 'G.pa', 'X'), ca=col('ca', 'G.ca', 'X'), ga=col('ga', 'G.ga', 'X')))
    return Parent, Child, Grand


@unit('C02', max_paths=5000)
def columns_of_a_family(cx):
    m = cx.load(CORE + 'reducer')
    fam = family(cx, m)
    which = cx.choice('class', [0, 1, 2])
    cls = fam[which]
    own = [['pa', 'pb'], ['ca'], ['ga']][which]
    tag = ['P.', 'C.', 'G.'][which]
    kw = settings(cx, ['pa', 'pb', 'ca', 'ga'])
    if cx.choice('set_default', [False, True]):
        kw['_disable_by_default'] = cx.choice('disable', [False, True])
    default = not kw.get('_disable_by_default', False)
    expect = [c for c in own if kw.get(c, default)]
    cx.eq('own columns', list(cls.columns), own)
    cx.eq('active columns of the class', list(cls.get_active_columns(**kw)), expect)
    r = cls(4, 128, **kw)
    cx.eq('active columns of the reducer', list(r.active_columns), expect)
    for c in own:
        cx.must_raise('reading %s before any event' % c, lambda: getattr(r, c), ValueError)
    ev = cx.array('w', (4, 128))
    out = r.process(ev)
    cx.keys('columns', out, expect)
    for c in expect:
        cx.eq(c + ' is computed by the class that introduces it', out[c][0], tag + c)
        cx.same(c + ' sees the event', out[c][1], ev)


@unit('C02')
def columns_unique(cx):
    m = cx.load(CORE + 'reducer')
    cx.patch(m.column, 'registry', dict())

    def col(name, qual):
        def f(self):
            return 1
        f.__name__ = name
        f.__qualname__ = qual
        f.__doc__ = None
        return m.column(f)
    a = col('x', 'A.x')
    cx.must_raise('two reducers, one name', lambda: col('x', 'B.x'), AttributeError)
    b = col('y', 'B.y')
    again = col('x', 'A.x')
    cx.must_raise('still refused after the class was reloaded', lambda: col('x', 'C.x'), AttributeError)
    cx.must_raise('second name refused', lambda: col('y', 'A.y'), AttributeError)


def reducer_class(cx, name, mod):
    m = cx.load(PKG + mod)
    kw = {}
    if mod == 'cross_correlation':
        K, y, y1 = reference_pulse(cx)
        cx.patch(m.CrossCorrelation, '_load_reference_pulse', staticmethod(lambda path: (y, y1)))
        kw['reference_pulse_path'] = 'ref.txt'
    P = cx.int('P', 1, conc=(1, 3)) if name != 'FlagFlashers' else 2048
    if mod == 'timing':
        res = [cx.array('tr%d' % k, (P,), 'f8') for k in range(8)]
        cx.patch(m, 'obtain_pulse_timing', lambda waveforms, start, end: tuple(res))
    if name == 'SPAmplitude':
        P = P * 4
    return getattr(m, name), kw, P


REAL = dict(
    AverageWF=('average_wf', ['t_averagewf', 'charge_averagewf']),
    Common=('common', ['baseline_start_mean', 'baseline_start_rms', 'baseline_end_mean', 'baseline_end_rms',
                       'waveform_mean', 'waveform_rms', 'waveform_max']),
    CrossCorrelation=('cross_correlation', ['t_cc', 'charge_cc', 'height_cc']),
    CrossCorrelationLocal=('cross_correlation', ['t_cc_local', 'charge_cc_local', 'height_cc_local']),
    FlagFlashers=('flag_flasher', ['flasher_unit']),
    Saturation=('saturation', ['saturation_sum']),
    SPAmplitude=('superpixel', ['sp_argmax', 'sp_max']),
    Timing=('timing', ['t_event', 't_pulse', 't_pulse_amp', 'fwhm', 't_rise']),
)


def real_columns(name):
    mod, cols = REAL[name]

    def contract(cx):
        cls, kw, P = reducer_class(cx, name, mod)
        S = cx.int('S', 20, conc=(20, 30))
        mode = cx.choice('mode', ['all', 'one off', 'one on', 'mixed'])
        k = cx.choice('k', range(len(cols)))
        if mode == 'all':
            expect = cols
        elif mode == 'one off':
            kw[cols[k]] = False
            expect = [c for c in cols if c != cols[k]]
        else:
            kw['_disable_by_default'] = True
            kw[cols[k]] = True
            if mode == 'mixed':
                kw[cols[k - 1]] = len(cols) == 1
            expect = [cols[k]]
        r = cls(P, S, **kw)
        cx.eq('columns of the class', sorted(cls.columns), sorted(cols))
        cx.eq('active', sorted(r.active_columns), sorted(expect))
        for c in cols:
            cx.must_raise('reading %s before any event' % c, lambda: getattr(r, c), ValueError)
        w = cx.array('w', (P, S))
        out = r.process(w)
        cx.keys('columns', out, expect)
        # the value under each name is the one the column itself computes
        for c in expect:
            v = getattr(r, c)
            if cx.is_array(v):
                cx.same(c, out[c], v)
            else:
                cx.eq(c, out[c], v)
    contract.__name__ = 'columns_' + name
    contract.__doc__ = 'The columns of %s under every setting.' % name
    contract.__module__ = __name__
    return unit('C02', cost=2, runs_factor=.1 if name == 'FlagFlashers' else 1)(contract)


for _n in REAL:
    real_columns(_n)


# --------------------------------------------------------------------- C03
def merged_config(defaults, default_config, loaded, kwargs):
    return {**default_config, **(defaults if loaded is None else loaded), **kwargs}


def quiet_reducers(cx):
    """The modules whose import needs packages that are not installed are
    imported as they are; nothing is replaced."""
    return cx.load(CORE + 'chain'), cx.load(CORE + 'reducer')


@unit('C03', max_paths=3000)
def chain_configuration(cx):
    """Reducers a user defines, every combination of file, arguments and
    built-in defaults for their columns."""
    ch, m = quiet_reducers(cx)
    cx.patch(m.column, 'registry', dict())
    Base, column = m.WaveformReducer, m.column
    uid = cx.unique()
    va, vb, vc = ('v%s_%s' % (k, uid) for k in 'abc')

    def col(name, opt):
        def f(self):
            return (name, self.kwargs.get(opt, 'unset'), self.waveforms)
        f.__name__ = name
        f.__qualname__ = uid + name
        f.__doc__ = None
        return column(f)
    One = type(Base)('One' + uid, (Base,), {va: col(va, 'opt'), vb: col(vb, 'opt')})
    Two = type(Base)('Two' + uid, (One,), {vc: col(vc, 'opt')})
    Three = type(Base)('Three' + uid, (Base,), dict())
    Chain = ch.WaveformReducerChain
    defaults = {va: True, vb: False, vc: cx.choice('default_c', [False, True])}
    cx.patch(Chain, 'default_columns', dict(defaults))
    cx.patch(Chain, 'default_config', dict(opt=1, other=2))
    with_file = cx.choice('config_file', ['none', 'empty', 'given'])
    loaded = None
    if with_file != 'none':
        loaded = {}
        if with_file == 'given':
            loaded = settings_as(cx, 'file', [va, vb])
            if cx.choice('file_opt', [False, True]):
                loaded['opt'] = 'from file'
        cx.write_yaml(cx.tmp('reducers.yml'), loaded or None)
    kw = settings_as(cx, 'arg', [va, vb])
    if cx.choice('arg_opt', [False, True]):
        kw['opt'] = 'from argument'
    # another chain built before must not matter
    Chain(4, 128, **{va: False, vb: True, vc: True, 'opt': 'earlier'})
    path = {} if loaded is None else dict(config_path=cx.tmp('reducers.yml'))
    chain = Chain(4, 128, **path, **kw)
    conf = merged_config(defaults, dict(opt=1, other=2), loaded, kw)
    expect = [c for c in (va, vb, vc) if conf.get(c, False)]
    cx.keys('merged configuration', chain.config, list(conf))
    for k in conf:
        cx.eq('configuration ' + k, chain.config[k], conf[k])
    runs = bool(conf.get(va)) or bool(conf.get(vb))
    cx.eq('participating reducers', len(chain.chain), int(runs) + int(bool(conf.get(vc))))
    for n in range(2):
        ev = cx.array('w%d' % n, (4, 128))
        e0 = cx.snapshot(ev)
        out = chain.process(ev)
        cx.keys('columns', out, expect)
        for c in expect:
            cx.eq(c + ' is its own column', out[c][0], c)
            cx.eq(c + ' configured', out[c][1], conf['opt'])
            cx.same(c + ' of this event', out[c][2], e0)
        cx.unchanged('event', ev, e0)


def settings_as(cx, tag, names):
    kw = {}
    for n in names:
        v = cx.choice('%s_%s' % (tag, n[:2]), [None, True, False])
        if v is not None:
            kw[n] = v
    return kw


@unit('C03', cost=4)
def chain_of_the_package(cx):
    """The reducers of the package, as discovered by importing it."""
    ch, m = quiet_reducers(cx)
    Chain = ch.WaveformReducerChain
    defaults = dict(Chain.default_columns)
    base_config = dict(Chain.default_config)
    K, y, y1 = reference_pulse(cx)
    cc = cx.load(PKG + 'cross_correlation')
    cx.patch(cc.CrossCorrelation, '_load_reference_pulse', staticmethod(lambda path: (y, y1)))
    tm = cx.load(PKG + 'timing')
    N = cx.int('N', 1, conc=(1, 3))
    P = N * 4
    res = [cx.array('tr%d' % k, (P,), 'f8') for k in range(8)]
    cx.patch(tm, 'obtain_pulse_timing', lambda waveforms, start, end: tuple(res))
    S = cx.int('S', 20, conc=(20, 30))
    classes = {}
    for n, (mod, cols) in REAL.items():
        classes[n] = getattr(cx.load(PKG + mod), n)
    kind = cx.choice('kind', ['defaults', 'file', 'arguments', 'file and arguments'])
    loaded, kw = None, dict(reference_pulse_path='ref.txt')
    if 'file' in kind:
        loaded = dict(waveform_max=True, sp_max=True, t_cc=False, window_size=5, window_shift=2)
        cx.write_yaml(cx.tmp('chain.yml'), loaded)
    if 'arguments' in kind:
        kw.update(t_event=True, charge_cc=False, t_cc=False, height_cc=False, sp_max=False, sp_argmax=True,
                  charge_cc_local=True, window_shift=3)
    path = {} if loaded is None else dict(config_path=cx.tmp('chain.yml'))
    chain = Chain(P, S, **path, **kw)
    conf = merged_config(defaults, base_config, loaded, kw)
    expect = {n: [c for c in cols if conf.get(c, False)] for n, (mod, cols) in REAL.items()}
    cx.eq('participating reducers', len(chain.chain), sum(1 for n in expect if expect[n]))
    w = cx.array('w', (P, S))
    w0 = cx.snapshot(w)
    out = chain.process(w)
    cx.keys('columns', out, [c for n in expect for c in expect[n]])
    cx.unchanged('event', w, w0)
    for n in expect:
        if not expect[n]:
            continue
        ref = classes[n](P, S, **{**conf, '_disable_by_default': True}).process(cx.snapshot(w0))
        for c in expect[n]:
            if cx.is_array(ref[c]):
                cx.same(c, out[c], ref[c])
            else:
                cx.eq(c, out[c], ref[c])


@unit('C03')
def discovery(cx):
    """All reducers of the package are found, whoever imports the chain, and a
    parent class does not hide its children."""
    ch, m = quiet_reducers(cx)
    core = cx.load('CHECLabPy.core')
    found = core.child_subclasses(m.WaveformReducer)
    names = [c.__name__ for c in found]
    for n in REAL:
        cx.ensure('%s is found' % n, n in names)
    cx.eq('each once', len(names), len(set(names)))
