"""Contracts of the sliding-window reducers and the ctapipe integrators (C31).

ctapipe is not installed: both back ends use the contracts below for it."""
from pydv.registry import unit
from framework import isolation
from reducers import PKG, correlation, load_cc, parabola_time, waves

CTAPIPE = ('ctapipe.image.extractor: sum_samples_around_peak(w, peak, width, shift) sums the existing samples peak - shift ... '
           'peak - shift + width - 1 of every pixel; extract_pulse_time_around_peak and neighbor_average_waveform give any arrays '
           'determined by their arguments; LocalPeakWindowSum and NeighborPeakWindowSum give any charge and time for the waveforms '
           'they are called with')


class Ctapipe:
    """ctapipe, as far as it is used."""

    def __init__(self, cx, P, S):
        self.cx, self.P, self.S = cx, P, S
        self.times, self.averages, self.made = [], [], []
        self.t = cx.array('time', (P,), 'f8')
        self.avg = cx.array('average', (P, S), 'f4')
        self.charge = cx.array('charge', (P,), 'f8')
        cx.assume_contract(CTAPIPE)
        ex = cx.module('ctapipe.image.extractor', sum_samples_around_peak=self.sum, extract_pulse_time_around_peak=self.time,
                       neighbor_average_waveform=self.average, LocalPeakWindowSum=self.integrator('local'),
                       NeighborPeakWindowSum=self.integrator('neighbour'))
        image = cx.module('ctapipe.image', extractor=ex)
        cx.stub_module('ctapipe', cx.module('ctapipe', image=image), purge=False)
        cx.stub_module('ctapipe.image', image, purge=False)
        cx.stub_module('ctapipe.image.extractor', ex, purge=False)

    def peak(self, peak, p):
        return peak[p] if self.cx.is_array(peak) and len(peak.shape) else peak

    def sum(self, w, peak, width, shift):
        cx, P, S = self.cx, w.shape[0], w.shape[1]
        return cx.build((P,), lambda p: window_sum(cx, lambda s: w[p, s], S, self.peak(peak, p) - shift, width), 'f8')

    def time(self, w, peak, width, shift):
        self.times.append((w, peak, width, shift))
        return self.t

    def average(self, w, neighbors, lwt):
        self.averages.append((w, neighbors, lwt))
        return self.avg

    def integrator(self, kind):
        world = self

        def make(**k):
            made = Integrator(world, kind, k)
            world.made.append(made)
            return made
        return make


class Integrator:
    def __init__(self, world, kind, options):
        self.world, self.kind, self.options, self.calls, self.neighbors = world, kind, options, [], None

    def __call__(self, w):
        self.calls.append((w, self.neighbors))
        return self.world.charge, self.world.t


class Camera:
    def __init__(self, mapping):
        self.neighbor_matrix_where = ('neighbours', mapping)


def window_sum(cx, y, S, start, width):
    """The sum of the samples start ... start + width - 1 that exist."""
    return cx.sum(width, lambda j: cx.ite(cx.and_(start + j >= 0, start + j < S), lambda: y(start + j), lambda: 0))


def setup(cx, cls, mapping=None, module='sliding_window'):
    P, S, w = waves(cx)
    ct = Ctapipe(cx, P, S)
    m = cx.load(PKG + module)
    kw = {} if mapping is None else dict(mapping=mapping)
    cx.patch(m, 'get_ctapipe_camera_geometry', Camera)
    W = 8
    if cx.choice('set_window', [False, True]):
        W = kw['window_size'] = cx.int('window_size', 1, conc=(1, 12))
    return P, S, w, cx.snapshot(w), ct, getattr(m, cls)(P, S, **kw), W


def time_column(cx, ct, name, out, w0, peak, W):
    """The pulse time is ctapipe's around the peak."""
    cx.eq('pulse times are extracted once', len(ct.times), 1)
    w, k, width, shift = ct.times[0]
    cx.same('waveforms of the pulse time', w, w0)
    cx.all('peak of the pulse time', (ct.P,), lambda p: (ct.peak(k, p), peak(p)))
    cx.eq('window of the pulse time', width, W)
    cx.eq('shift of the pulse time', shift, 0)
    cx.same(name, out[name], ct.t)


@unit('C31')
def sliding_window(cx):
    """The window is that of the largest sum of the mean waveform."""
    P, S, w, w0, ct, r, W = setup(cx, 'SlidingWindow')
    out = r.process(w)
    cx.keys('columns', out, ['t_sliding', 'charge_sliding'])
    k = cx.argmax(S, lambda t: window_sum(cx, lambda s: cx.mean(P, lambda p: w0[p, s]), S, t, W))
    cx.shape('charge', out['charge_sliding'], (P,))
    cx.all('charge', (P,), lambda p: (out['charge_sliding'][p], window_sum(cx, lambda s: w0[p, s], S, k, W)))
    time_column(cx, ct, 't_sliding', out, w0, lambda p: k, W)
    cx.unchanged('waveforms', w, w0)


@unit('C31')
def sliding_window_local(cx):
    """The window of a pixel is that of the largest sum of its own waveform."""
    P, S, w, w0, ct, r, W = setup(cx, 'SlidingWindowLocal')
    out = r.process(w)
    cx.keys('columns', out, ['t_sliding_local', 'charge_sliding_local'])
    ws = lambda p: lambda t: window_sum(cx, lambda s: w0[p, s], S, t, W)
    cx.shape('charge', out['charge_sliding_local'], (P,))
    cx.all('charge', (P,), lambda p: (out['charge_sliding_local'][p], cx.max(S, ws(p))))
    time_column(cx, ct, 't_sliding_local', out, w0, lambda p: cx.argmax(S, ws(p)), W)
    cx.unchanged('waveforms', w, w0)


@unit('C31')
def sliding_window_neighbour(cx):
    """The window of a pixel is that of the largest sum of the waveform
    averaged over its neighbours."""
    P, S, w, w0, ct, r, W = setup(cx, 'SlidingWindowNeighbour', 'the mapping')
    out = r.process(w)
    cx.keys('columns', out, ['t_sliding_nn', 'charge_sliding_nn'])
    cx.eq('averaged once', len(ct.averages), 1)
    a, nb, lwt = ct.averages[0]
    cx.same('waveforms averaged', a, w0)
    cx.ensure('neighbours of the mapping', nb == ('neighbours', 'the mapping'))
    cx.eq('own waveform left out', lwt, 0)
    k = lambda p: cx.argmax(S, lambda t: window_sum(cx, lambda s: ct.avg[p, s], S, t, W))
    cx.shape('charge', out['charge_sliding_nn'], (P,))
    cx.all('charge', (P,), lambda p: (out['charge_sliding_nn'][p], window_sum(cx, lambda s: w0[p, s], S, k(p), W)))
    time_column(cx, ct, 't_sliding_nn', out, w0, k, W)
    cx.unchanged('waveforms', w, w0)


@unit('C31')
def needs_mapping(cx):
    P, S = cx.int('P', 1, conc=(1, 4)), cx.int('S', 1, conc=(1, 9))
    Ctapipe(cx, P, S)
    m, i = cx.load(PKG + 'sliding_window'), cx.load(PKG + 'ctapipe_integrators')
    cx.must_raise('sliding window without a mapping', lambda: m.SlidingWindowNeighbour(P, S), ValueError)
    cx.must_raise('integrator without a mapping', lambda: i.CtapipeNeighbourPeakIntegrator(P, S), ValueError)


@unit('C31')
def integrators(cx):
    """Charge and time are the results of ctapipe's integrator, built with the
    configured window (and the neighbours), for the event."""
    kind = cx.choice('kind', ['local', 'neighbour'])
    P, S, w = waves(cx)
    ct = Ctapipe(cx, P, S)
    m = cx.load(PKG + 'ctapipe_integrators')
    cx.patch(m, 'get_ctapipe_camera_geometry', Camera)
    kw, width, shift = {}, 6, 3
    if cx.choice('set_size', [False, True]):
        width = kw['window_size'] = cx.int('window_size', 1, conc=(1, 12))
    if cx.choice('set_shift', [False, True]):
        shift = kw['window_shift'] = cx.int('window_shift', conc=(-2, 9))
    if kind == 'local':
        r = m.CtapipeLocalPeakIntegrator(P, S, **kw)
        names = ['t_local', 'charge_local']
    else:
        r = m.CtapipeNeighbourPeakIntegrator(P, S, mapping='the mapping', **kw)
        names = ['t_nn', 'charge_nn']
    before = cx.array('before', (P, S), 'f4')
    r.process(before)
    w0 = cx.snapshot(w)
    out = r.process(w)
    cx.keys('columns', out, names)
    cx.eq('one integrator', len(ct.made), 1)
    i = ct.made[0]
    cx.ensure('kind of integrator', i.kind == kind)
    o = dict(i.options)
    cx.eq('width', o.pop('window_width'), width)
    cx.eq('shift', o.pop('window_shift'), shift)
    cx.eq('own waveform left out', o.pop('lwt', 0), 0)
    cx.ensure('no other options', not o)
    cx.eq('one call for every event', len(i.calls), 2)
    cx.same('waveforms integrated', i.calls[1][0], w0)
    if kind == 'neighbour':
        cx.ensure('neighbours of the mapping', i.calls[1][1] == ('neighbours', 'the mapping'))
    cx.same('time', out[names[0]], ct.t)
    cx.same('charge', out[names[1]], ct.charge)
    cx.unchanged('waveforms', w, w0)


@unit('C06', cost=3)
def cross_correlation_neighbour(cx):
    """The sample of a pixel is that of the largest neighbour-averaged
    correlation."""
    P, S, w = waves(cx)
    ct = Ctapipe(cx, P, S)
    m, K, y, y1 = load_cc(cx)
    cx.patch(m, 'get_ctapipe_camera_geometry', Camera)
    w0 = cx.snapshot(w)
    out = m.CrossCorrelationNeighbour(P, S, mapping='the mapping', reference_pulse_path='ref.txt').process(w)
    cx.keys('columns', out, ['t_cc_nn', 'charge_cc_nn', 'height_cc_nn'])
    cc = correlation(cx, w0, y, K, S)
    cx.eq('averaged once', len(ct.averages), 1)
    a, nb, lwt = ct.averages[0]
    cx.shape('correlation averaged', a, (P, S))
    cx.all('correlation averaged', (P, S), lambda p, s: (a[p, s], cc(p, s)))
    cx.ensure('neighbours of the mapping', nb == ('neighbours', 'the mapping'))
    cx.eq('own correlation left out', lwt, 0)
    top = cx.max(K, lambda j: y1[j])
    for c in out:
        cx.shape(c, out[c], (P,))

    def pixel(p):
        k = cx.argmax(S, lambda s: ct.avg[p, s])
        return dict(charge=(out['charge_cc_nn'][p], cc(p, k)), height=(out['height_cc_nn'][p], cc(p, k) * top),
                    time=(out['t_cc_nn'][p], parabola_time(cx, cc, p, k, S)))
    cx.all('neighbour cross-correlation', (P,), pixel)
    cx.unchanged('waveforms', w, w0)


@unit('C06')
def neighbour_needs_mapping(cx):
    P, S = cx.int('P', 1, conc=(1, 4)), cx.int('S', 1, conc=(1, 9))
    Ctapipe(cx, P, S)
    m, K, y, y1 = load_cc(cx)
    cx.must_raise('cross-correlation without a mapping', lambda: m.CrossCorrelationNeighbour(P, S, reference_pulse_path='ref.txt'), ValueError)
    cx.must_raise('cross-correlation without a reference pulse',
                  lambda: m.CrossCorrelationNeighbour(P, S, mapping='the mapping'), ValueError)


class Steady(Ctapipe):
    """ctapipe gives equal results for equal arguments, and anything for
    others."""

    def __init__(self, cx, P, S):
        super().__init__(cx, P, S)
        self.now, self.known, self.n = False, {}, 0

    def result(self, kind, args, make):
        cx = self.cx
        args = [cx.snapshot(a) if cx.is_array(a) else a for a in args]
        if self.now and kind in self.known:
            before, out = self.known[kind]
            for i, (a, b) in enumerate(zip(args, before)):
                what = '%s, argument %d' % (kind, i)
                if cx.is_array(b):
                    cx.same(what, a, b)
                elif isinstance(b, tuple) or b is None:
                    cx.ensure(what, a == b)
                else:
                    cx.eq(what, a, b)
        else:
            self.n += 1
            out = make('%s%d ' % (kind, self.n))
            if self.now:
                self.known[kind] = args, out
        return tuple(cx.snapshot(a) for a in out)

    def time(self, w, peak, width, shift):
        return self.result('time', (w, peak, width, shift), lambda t: (self.cx.array(t, (self.P,), 'f8'),))[0]

    def average(self, w, neighbors, lwt):
        return self.result('average', (w, neighbors, lwt), lambda t: (self.cx.array(t, (self.P, self.S), 'f4'),))[0]

    def integrator(self, kind):
        def make(**k):
            return SteadyIntegrator(self, kind, k)
        return make


class SteadyIntegrator(Integrator):
    def __call__(self, w):
        P, cx = self.world.P, self.world.cx
        names = sorted(self.options)
        return self.world.result(self.kind, [w, self.neighbors, tuple(names)] + [self.options[n] for n in names],
                                 lambda t: (cx.array(t + 'charge', (P,), 'f8'), cx.array(t + 'time', (P,), 'f8')))


def isolated(cx, module, cls, **k):
    P = cx.int('P', 1, conc=(1, 5))
    S = cx.int('S', 1, conc=(1, 45))
    ct = Steady(cx, P, S)
    if module == 'cross_correlation':
        m = load_cc(cx)[0]
        k['reference_pulse_path'] = 'ref.txt'
    else:
        m = cx.load(PKG + module)
        if cx.choice('set_window', [False, True]):
            k['window_size'] = cx.int('window_size', 1, conc=(1, 12))
            if module == 'ctapipe_integrators':
                k['window_shift'] = cx.int('window_shift', conc=(-2, 9))
    if module != 'sliding_window' or 'mapping' in k:
        cx.patch(m, 'get_ctapipe_camera_geometry', Camera)

    def now(w):
        ct.now = True

    def later():
        ct.now = False
    isolation(cx, lambda: getattr(m, cls)(P, S, **k), P, S, begin=now, end=later)


@unit('C01')
def sliding_window_isolated(cx):
    isolated(cx, 'sliding_window', 'SlidingWindow')


@unit('C01')
def sliding_window_local_isolated(cx):
    isolated(cx, 'sliding_window', 'SlidingWindowLocal')


@unit('C01')
def sliding_window_neighbour_isolated(cx):
    isolated(cx, 'sliding_window', 'SlidingWindowNeighbour', mapping='the mapping')


@unit('C01')
def local_integrator_isolated(cx):
    isolated(cx, 'ctapipe_integrators', 'CtapipeLocalPeakIntegrator')


@unit('C01')
def neighbour_integrator_isolated(cx):
    isolated(cx, 'ctapipe_integrators', 'CtapipeNeighbourPeakIntegrator', mapping='the mapping')


@unit('C01')
def cross_correlation_neighbour_isolated(cx):
    isolated(cx, 'cross_correlation', 'CrossCorrelationNeighbour', mapping='the mapping')
