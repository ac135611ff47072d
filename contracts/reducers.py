"""Contracts of the waveform reducers (C01, C02, C04-C08)."""
from pydv.registry import unit

PKG = 'CHECLabPy.waveform_reducers.'


def waves(cx, name='w', pmin=1, smin=1, dtype='f4'):
    P = cx.int('P', pmin, conc=(pmin, pmin + 7))
    S = cx.int('S', smin, conc=(smin, smin + 45))
    return P, S, cx.array(name, (P, S), dtype)


@unit('C05')
def common_statistics(cx):
    m = cx.load(PKG + 'common')
    P, S, w = waves(cx)
    w0 = cx.snapshot(w)
    out = m.Common(P, S).process(w)
    cx.keys('columns', out, ['baseline_start_mean', 'baseline_start_rms', 'baseline_end_mean', 'baseline_end_rms',
                             'waveform_mean', 'waveform_rms', 'waveform_max'])
    n = cx.min2(S, 20)
    for k in out:
        cx.shape(k, out[k], (P,))

    def pixel(p):
        first = lambda i: w0[p, i]
        last = lambda i: w0[p, S - n + i]
        return dict(
            baseline_start_mean=(out['baseline_start_mean'][p], cx.mean(n, first)),
            baseline_start_rms=(out['baseline_start_rms'][p], cx.std(n, first)),
            baseline_end_mean=(out['baseline_end_mean'][p], cx.mean(n, last)),
            baseline_end_rms=(out['baseline_end_rms'][p], cx.std(n, last)),
            waveform_mean=(out['waveform_mean'][p], cx.mean(S, first)),
            waveform_rms=(out['waveform_rms'][p], cx.std(S, first)),
            waveform_max=(out['waveform_max'][p], cx.max(S, first)))
    cx.all('pixel statistics', (P,), pixel)
    cx.unchanged('waveforms', w, w0)


def event_time(cx, w, P, S):
    avg = lambda i: cx.mean(P, lambda p: w[p, i])
    t = cx.argmax(S, avg)
    return cx.clip(t, 10, S - 10)


def cfg(cx, **names):
    """A configuration in which each named entry may be given or absent."""
    kw = {}
    for name, (default, make) in names.items():
        if cx.choice('set_' + name, [False, True]):
            kw[name] = make()
    return kw


@unit('C04')
def average_wf(cx):
    m = cx.load(PKG + 'average_wf')
    P, S, w = waves(cx, smin=20)
    w0 = cx.snapshot(w)
    kw = {}
    size, shift = 6, 3
    if cx.choice('set_window', [False, True]):
        size = kw['window_size'] = cx.int('window_size', 0, conc=(0, 12))
        shift = kw['window_shift'] = cx.int('window_shift', conc=(-3, 9))
    if cx.choice('set_t', [False, True]):
        t = kw['t_extract'] = cx.int('t_extract', conc=(0, 60))
    else:
        t = event_time(cx, w, P, S)
    start = t - shift
    cx.assume(start >= 0)
    cx.assume(start + size <= S)
    out = m.AverageWF(P, S, **kw).process(w)
    cx.keys('columns', out, ['t_averagewf', 'charge_averagewf'])
    cx.eq('t_averagewf is the time of the maximum of the average, within 10 samples of the ends', out['t_averagewf'], t)
    cx.shape('charge', out['charge_averagewf'], (P,))
    cx.all('charge_averagewf sums the window', (P,), lambda p: (
        out['charge_averagewf'][p], cx.sum(size, lambda k: w0[p, start + k])))


@unit('C04')
def average_wf_partial_window(cx):
    """A window reaching beyond the end sums the samples that exist."""
    m = cx.load(PKG + 'average_wf')
    P, S, w = waves(cx, smin=20)
    w0 = cx.snapshot(w)
    size = cx.int('window_size', 0, conc=(0, 30))
    shift = cx.int('window_shift', -20, conc=(-20, 9))
    t = event_time(cx, w, P, S)
    start = t - shift
    cx.assume(start >= 0)
    out = m.AverageWF(P, S, window_size=size, window_shift=shift).process(w)
    end = cx.min2(start + size, S)
    n = cx.max2(end - start, 0)
    cx.all('charge sums the samples of the window', (P,), lambda p: (
        out['charge_averagewf'][p], cx.sum(n, lambda k: w0[p, start + k])))


@unit('C04')
def saturation(cx):
    m = cx.load(PKG + 'saturation')
    P, S, w = waves(cx, smin=20)
    w0 = cx.snapshot(w)
    kw = {}
    shift = 4
    if cx.choice('set_window', [False, True]):
        shift = kw['window_shift'] = cx.int('window_shift', conc=(-3, 9))
    if cx.choice('set_t', [False, True]):
        t = kw['t_event'] = cx.int('t_event', conc=(0, 60))
    else:
        t = event_time(cx, w, P, S)
    start = t - shift
    cx.assume(start >= 0)
    cx.assume(start <= S)
    out = m.Saturation(P, S, **kw).process(w)
    cx.keys('columns', out, ['saturation_sum'])
    cx.shape('saturation_sum', out['saturation_sum'], (P,))
    cx.all('saturation_sum sums to the end', (P,), lambda p: (
        out['saturation_sum'][p], cx.sum(S - start, lambda k: w0[p, start + k])))


# --------------------------------------------------------------------- C06
def reference_pulse(cx):
    K = cx.int('K', 1, conc=(1, 9))
    gen = lambda r, shape: r.randint(0, 9, size=shape) / 4.
    y = cx.array('y', (K,), 'f8', gen=gen)
    y1 = cx.array('y_1pe', (K,), 'f8', gen=gen)
    return K, y, y1


def load_cc(cx):
    """The module with the reading of the pulse file replaced by its contract:
    two arbitrary arrays of equal length."""
    m = cx.load(PKG + 'cross_correlation')
    K, y, y1 = reference_pulse(cx)
    cx.patch(m.CrossCorrelation, '_load_reference_pulse', staticmethod(lambda path: (y, y1)))
    return m, K, y, y1


def correlation(cx, w, y, K, S):
    """cc(p, i): the pulse's maximum placed on sample i."""
    peak = cx.argmax(K, lambda j: y[j])

    def at(p, i):
        def term(j):
            k = i + j - peak
            inside = cx.and_(k >= 0, k < S)
            return cx.ite(inside, lambda: w[p, k] * y[j], lambda: 0.0)
        return cx.sum(K, term)
    return memo(cx, at)


def memo(cx, f):
    if cx.symbolic:
        return f
    d = {}

    def g(*a):
        if a not in d:
            d[a] = f(*a)
        return d[a]
    return g


def parabola_time(cx, cc, p, k, S):
    def inner():
        y0, y1, y2 = cc(p, k - 1), cc(p, k), cc(p, k + 1)
        den = y0 - 2 * y1 + y2

        def vertex():
            t = k + cx.div((y0 - y2) / 2, den)
            return cx.ite(cx.and_(t >= 0, t < S), lambda: t, lambda: cx.real_of(k))
        return cx.ite(den != 0, vertex, lambda: cx.real_of(k))
    return cx.ite(cx.and_(k > 0, k < S - 1), inner, lambda: cx.real_of(k))


@unit('C06', cost=3)
def cross_correlation(cx):
    m, K, y, y1 = load_cc(cx)
    P, S, w = waves(cx)
    w0 = cx.snapshot(w)
    out = m.CrossCorrelation(P, S, reference_pulse_path='ref.txt').process(w)
    cx.keys('columns', out, ['t_cc', 'charge_cc', 'height_cc'])
    cc = correlation(cx, w0, y, K, S)
    k = cx.argmax(S, memo(cx, lambda i: cx.mean(P, lambda p: cc(p, i))))
    top = cx.max(K, lambda j: y1[j])
    for c in out:
        cx.shape(c, out[c], (P,))
    cx.all('cross-correlation', (P,), lambda p: dict(
        charge=(out['charge_cc'][p], cc(p, k)),
        height=(out['height_cc'][p], cc(p, k) * top),
        time=(out['t_cc'][p], parabola_time(cx, cc, p, k, S))))


@unit('C06', cost=3)
def cross_correlation_local(cx):
    m, K, y, y1 = load_cc(cx)
    P, S, w = waves(cx)
    w0 = cx.snapshot(w)
    out = m.CrossCorrelationLocal(P, S, reference_pulse_path='ref.txt').process(w)
    cx.keys('columns', out, ['t_cc_local', 'charge_cc_local', 'height_cc_local'])
    cc = correlation(cx, w0, y, K, S)
    top = cx.max(K, lambda j: y1[j])
    for c in out:
        cx.shape(c, out[c], (P,))

    def pixel(p):
        k = cx.argmax(S, lambda i: cc(p, i))
        return dict(charge=(out['charge_cc_local'][p], cc(p, k)),
                    height=(out['height_cc_local'][p], cc(p, k) * top),
                    time=(out['t_cc_local'][p], parabola_time(cx, cc, p, k, S)))
    cx.all('local cross-correlation', (P,), pixel)


@unit('C06')
def pulse_time(cx):
    """extract_pulse_time for arbitrary waveforms and peak positions."""
    m = cx.load(PKG + 'cross_correlation')
    P, S, w = waves(cx, dtype='f8')
    k = cx.array('peak', (P,), 'i8', lo=0, hi=S - 1)
    w0, k0 = cx.snapshot(w), cx.snapshot(k)
    t = m.extract_pulse_time(w, k)
    cx.shape('times', t, (P,))
    cx.all('pulse time', (P,), lambda p: (
        t[p], parabola_time(cx, lambda q, i: w0[q, i], p, k0[p], S)))
    cx.unchanged('waveforms', w, w0)


@unit('C06')
def cross_correlation_needs_path(cx):
    m = cx.load(PKG + 'cross_correlation')
    for c in (m.CrossCorrelation, m.CrossCorrelationLocal):
        cx.must_raise('missing reference pulse is refused', lambda: c(4, 128), ValueError)


# --------------------------------------------------------------------- C07
def timing_spec(cx, w, p, S, ws, we):
    at = lambda i: w[p, i]
    base = cx.mean(cx.min2(10, S), at)
    k = ws + cx.argmax(we - ws, lambda j: at(ws + j))
    y0, y1, y2 = at(k - 1), at(k), at(k + 1)
    den = y0 - 2 * y1 + y2
    return base, k, y0, y1, y2, den


@unit('C07', cost=5)
def pulse_timing(cx):
    m = cx.load(PKG + 'timing')
    P, S, w = waves(cx, smin=20, dtype='f8')
    ws = cx.int('window_start', 1, conc=(1, 30))
    we = cx.int('window_end', 2, conc=(2, 40))
    cx.assume(ws < we)
    cx.assume(we <= S - 1)
    w0 = cx.snapshot(w)
    out = m.obtain_pulse_timing(w, ws, we)
    tp, hp, fw, rt = out[:4]
    for n, a in (('t_pulse', tp), ('t_pulse_amp', hp), ('fwhm', fw), ('t_rise', rt)):
        cx.shape(n, a, (P,))
    zero = dict(t=0.0, h=0.0, fwhm=0.0, rise=0.0)

    def crossing(p, thr, first, n, step):
        """First crossing of thr going from sample `first` in direction step
        (0, missing, if there is none; a crossing at sample 0 is missing)."""
        def pos(j):
            i = first + step * j
            a, b = w0[p, i], w0[p, i + step]
            return i + (thr - a) * step / (b - a)

        def down(j):
            a, b = w0[p, first + step * j], w0[p, first + step * (j + 1)]
            c = cx.and_(a >= thr, thr >= b, a > b)
            return c if step > 0 else cx.and_(c, lambda: pos(j) != 0)
        return cx.at_first(n, down, pos, 0.0)

    def pixel(p):
        base, k, y0, y1, y2, den = timing_spec(cx, w0, p, S, ws, we)
        got = dict(t=tp[p], h=hp[p], fwhm=fw[p], rise=rt[p])
        if cx.decide(den == 0):
            return {c: (got[c], zero[c]) for c in zero}
        t = k + 0.5 * (y0 - y2) / den
        if cx.decide(cx.not_(cx.and_(t >= 0, t < S))):
            return {c: (got[c], zero[c]) for c in zero}
        h = y1 - 0.25 * (y0 - y2) * (0.5 * (y0 - y2) / den) - base
        ip = cx.min2(cx.round_(t), S - 1)
        right = crossing(p, base + h / 2, ip, S - 1 - ip, 1)
        left = crossing(p, base + h / 2, ip, ip, -1)
        t90 = crossing(p, base + 0.9 * h, ip, ip, -1)
        t10 = crossing(p, base + 0.1 * h, ip, ip, -1)
        return dict(
            t=(got['t'], t), h=(got['h'], h),
            fwhm=(got['fwhm'], cx.ite(cx.and_(right != 0, left != 0), lambda: right - left, lambda: cx.nan)),
            rise=(got['rise'], cx.ite(cx.and_(t90 != 0, t10 != 0), lambda: t90 - t10, lambda: cx.nan)))
    cx.all('pulse timing', (P,), pixel)
    cx.unchanged('waveforms', w, w0)


@unit('C07')
def timing_reducer(cx):
    """The reducer hands the event window to obtain_pulse_timing (verified on
    its own above) and returns its results."""
    m = cx.load(PKG + 'timing')
    P, S, w = waves(cx, smin=20)
    w0 = cx.snapshot(w)
    kw = {}
    size, shift = 8, 4
    if cx.choice('set_window', [False, True]):
        size = kw['window_size'] = cx.int('window_size', 1, conc=(1, 9))
        shift = kw['window_shift'] = cx.int('window_shift', conc=(-3, 9))
    if cx.choice('set_t', [False, True]):
        t = kw['t_extract'] = cx.int('t_extract', conc=(0, 60))
    else:
        t = event_time(cx, w, P, S)
    cx.assume(t - shift >= 1)
    cx.assume(t - shift + size <= S - 1)
    cx.assume_contract('obtain_pulse_timing by its contract (unit C07.pulse_timing)')
    calls = []
    names = ['t_pulse', 'h_pulse', 'fwhm', 'rise', 't_l', 't_r', 't10', 't90']
    res = [cx.array('r_' + n, (P,), 'f8') for n in names]

    def fake(waveforms, start, end):
        calls.append((waveforms, start, end))
        return tuple(res)
    cx.patch(m, 'obtain_pulse_timing', fake)
    out = m.Timing(P, S, **kw).process(w)
    cx.keys('columns', out, ['t_event', 't_pulse', 't_pulse_amp', 'fwhm', 't_rise'])
    cx.eq('t_event is the event time', out['t_event'], t)
    cx.eq('one call', len(calls), 1)
    cx.same('samples analysed', calls[0][0], w0)
    cx.eq('window start', calls[0][1], t - shift)
    cx.eq('window end', calls[0][2], t - shift + size)
    for c, r in (('t_pulse', 0), ('t_pulse_amp', 1), ('fwhm', 2), ('t_rise', 3)):
        cx.same(c, out[c], res[r])


# --------------------------------------------------------------------- C08
@unit('C08')
def superpixel_amplitude(cx):
    m = cx.load(PKG + 'superpixel')
    N = cx.int('N', 1, conc=(1, 6))
    S = cx.int('S', 1, conc=(1, 30))
    w = cx.array('w', (N * 4, S))
    w0 = cx.snapshot(w)
    out = m.SPAmplitude(N * 4, S).process(w)
    cx.keys('columns', out, ['sp_argmax', 'sp_max'])
    for c in out:
        cx.shape(c, out[c], (N * 4,))

    def pixel(s, k):
        tot = lambda i: cx.sum(4, lambda j: w0[4 * s + j, i])
        return dict(sp_max=(out['sp_max'][4 * s + k], cx.max(S, tot)),
                    sp_argmax=(out['sp_argmax'][4 * s + k], cx.argmax(S, tot)))
    cx.all('superpixel of each pixel', (N, 4), pixel)
    cx.unchanged('waveforms', w, w0)


@unit('C08', runs_factor=.3)
def flasher(cx):
    m = cx.load(PKG + 'flag_flasher')
    P = cx.int('P', 27 * 64, conc=(2048, 2048))
    S = cx.int('S', 1, conc=(1, 8))
    base = cx.choice('scale', [0, 1]) if not cx.symbolic else 0
    w = cx.array('w', (P, S), gen=None if not base else lambda r, s: (
        r.randint(-8, 8, size=s) / 8. + 30 + r.randint(-2, 3, size=(32, 1)).repeat(64, 0)[:s[0]]))
    w0 = cx.snapshot(w)
    out = m.FlagFlashers(P, S).process(w)
    cx.keys('columns', out, ['flasher_unit'])
    mods = [5, 23, 8, 26]
    means = [cx.mean(64, lambda k: cx.max(S, lambda i: w0[64 * q + k, i])) for q in mods]
    low = cx.or_(*[x < 30 for x in means])
    best = 0
    top = means[0]
    for j in (1, 2, 3):
        better = means[j] > top
        best, top = cx.ite(better, j, best), cx.ite(better, means[j], top)
    cx.eq('flasher unit', out['flasher_unit'], cx.ite(low, -1, best))
    cx.unchanged('waveforms', w, w0)
