"""Contracts of the waveform utilities and calibration (C09-C13)."""
from pydv.registry import unit
from reducers import waves

UTIL = 'CHECLabPy.utils.waveform'
CAL = 'CHECLabPy.calib.'


# --------------------------------------------------------------------- C09
def source(cx, name, nmin=0, pmin=1, smin=1, dtype='f8', nmax=7):
    """A run of N events; iterating it yields events 0..N-1 that carry their
    index."""
    N = cx.int('N_' + name, nmin, conc=(nmin, nmin + nmax))
    P = cx.int('P', pmin, conc=(pmin, pmin + 3))
    S = cx.int('S', smin, conc=(smin, smin + 20))
    ev = cx.array(name, (N, P, S), dtype)
    return cx.source(N, P, S, ev), N, P, S, ev


@unit('C09', cost=2)
def baseline_start(cx):
    """The window starts as the first events of the run."""
    m = cx.load(UTIL)
    src, N, P, S, ev = source(cx, 'ev', nmin=1)
    nb, ns = 50, 16
    kw = {}
    if cx.choice('set', [False, True]):
        nb = kw['n_base'] = cx.int('n_base', 1, conc=(1, 9))
        ns = kw['n_base_samples'] = cx.int('n_base_samples', 1, conc=(1, 30))
    cx.assume(ns <= S)
    b = m.BaselineSubtractor(src, **kw)
    n = cx.min2(N, nb)
    cx.shape('baseline', b.baseline, (P,))
    cx.all('baseline of the first events', (P,), lambda p: (
        b.baseline[p], cx.div(
            cx.sum(n, lambda e: cx.sum(ns, lambda s: ev[e, p, s])), n * ns)))
    if cx.symbolic:
        cx.representation(b, 'baseline_waveforms', 'n_base', 'n_base_samples', 'iev')
        cx.eq('events in the window', b.n_base, n)
        cx.eq('samples', b.n_base_samples, ns)
        cx.eq('events subtracted', b.iev, 0)
        cx.shape('window', b.baseline_waveforms, (n, P, ns))
        cx.all('window content', (n, P, ns), lambda e, p, s: (b.baseline_waveforms[e, p, s], ev[e, p, s]))


@unit('C09', cost=2)
def baseline_step(cx):
    """Subtracting an event from any state the window can be in: the event
    replaces entry (events so far) mod (window length), which is the oldest,
    and the mean of the updated window is subtracted."""
    m = cx.load(UTIL)
    src, N, P, S, ev = source(cx, 'ev', nmin=1)
    nb = cx.int('n_base', 1, conc=(1, 9))
    ns = cx.int('n_base_samples', 1, conc=(1, 30))
    cx.assume(ns <= S)
    b = m.BaselineSubtractor(src, n_base=nb, n_base_samples=ns)
    if cx.symbolic:
        cx.representation(b, 'baseline_waveforms', 'n_base', 'n_base_samples', 'iev')
        n = cx.int('n', 1)
        done = cx.int('done', 0)
        win = cx.array('win', (n, P, ns), 'f8')
        b.baseline_waveforms = cx.snapshot(win)
        b.n_base, b.n_base_samples, b.iev = n, ns, done
        b.baseline = cx.array('stale', (P,), 'f8')
        w = cx.array('w', (P, S), cx.choice('dtype', ['f4', 'f8']))
        w0 = cx.snapshot(w)
        out = b.subtract(w)
        slot = done % n
        now = lambda e, p, s: cx.ite(e == slot, lambda: w0[p, s], lambda: win[e, p, s])
        cx.unchanged('the event', w, w0)
        cx.eq('window length', b.n_base, n)
        cx.eq('samples', b.n_base_samples, ns)
        cx.eq('events subtracted', b.iev, done + 1)
        cx.shape('window', b.baseline_waveforms, (n, P, ns))
        cx.all('window content', (n, P, ns), lambda e, p, s: (b.baseline_waveforms[e, p, s], now(e, p, s)))
        mean = lambda p: cx.div(cx.sum(n, lambda e: cx.sum(ns, lambda s: now(e, p, s))), n * ns)
        cx.shape('result', out, (P, S))
        cx.all('baseline', (P,), lambda p: (b.baseline[p], mean(p)))
        cx.all('subtracted', (P, S), lambda p, i: (out[p, i], w0[p, i] - b.baseline[p]))
    else:
        n = min(N, nb)
        window = [ev[e][:, :ns].copy() for e in range(n)]
        M = cx.int('M', 0, conc=(0, 20))
        for k in range(M):
            w = cx.array('w%d' % k, (P, S), cx.choice('dtype%d' % k, ['f4', 'f8']))
            w0 = cx.snapshot(w)
            window[k % n] = w0[:, :ns]
            out = b.subtract(w)
            cx.unchanged('the event', w, w0)
            mean = [cx.mean(n * ns, lambda j: window[j // ns][p, j % ns]) for p in range(P)]
            cx.shape('result', out, (P, S))
            cx.all('baseline', (P,), lambda p: (b.baseline[p], mean[p]))
            cx.all('subtracted', (P, S), lambda p, i: (out[p, i], w0[p, i] - mean[p]))


# --------------------------------------------------------------------- C10
@unit('C10')
def shift_array(cx):
    m = cx.load(UTIL)
    P, S, w = waves(cx, dtype=cx.choice('dtype', ['f4', 'f8']))
    w0 = cx.snapshot(w)
    num = cx.int('num', conc=(-45, 45))
    cx.assume(num < S)
    cx.assume(num > -S)
    kw, fill = {}, 0
    if cx.choice('set_fill', [False, True]):
        fill = kw['fill_value'] = cx.real('fill', conc=(-5, 5))
    out = m.shift_array(w, num, **kw)
    cx.shape('shape', out, (P, S))
    cx.all('samples', (P, S), lambda p, i: (
        out[p, i], cx.ite(cx.and_(i - num >= 0, i - num < S), lambda: w0[p, i - num], lambda: fill)))
    cx.unchanged('input', w, w0)


@unit('C10')
def shift_waveform(cx):
    m = cx.load(UTIL)
    P, S, w = waves(cx, dtype='f8')
    w0 = cx.snapshot(w)
    t = cx.int('t_shift', 0, conc=(0, 30))
    cx.assume(t < S)
    out = m.shift_waveform(w, t)
    peak = cx.argmax(S, lambda i: cx.mean(P, lambda p: w0[p, i]))
    cx.shape('shape', out, (P, S))
    cx.all('the peak of the average goes to t_shift', (P, S), lambda p, i: (
        out[p, i], cx.ite(cx.and_(i - t + peak >= 0, i - t + peak < S), lambda: w0[p, i - t + peak], lambda: 0)))
    cx.unchanged('input', w, w0)


def averaging(cx, per_pixel):
    m = cx.load(UTIL)
    src, N, P, S, ev = source(cx, 'ev', nmin=1)
    bs = cx.array('bs', (N, P, S), 'f8')
    cx.assume_contract('BaselineSubtractor.subtract returns an array of the event\'s shape (C09)')

    class Stub:
        def __init__(self, source, *a, **k):
            pass

        def subtract(self, waveforms):
            return cx.snapshot(bs[waveforms.iev])
    cx.patch(m, 'BaselineSubtractor', Stub)
    t = cx.int('t_shift', 0, conc=(0, 20))
    cx.assume(t < S)
    f = m.get_average_wf_per_pixel if per_pixel else m.get_average_wf
    out = f(src, t)

    def shifted(e, p, i):
        peak = cx.argmax(S, lambda j: cx.mean(P, lambda q: bs[e, q, j]))
        k = i - t + peak
        return cx.ite(cx.and_(k >= 0, k < S), lambda: bs[e, p, k], lambda: 0.0)
    if per_pixel:
        cx.shape('average', out, (P, S))
        cx.all('mean over the events', (P, S), lambda p, i: (out[p, i], cx.div(cx.sum(N, lambda e: shifted(e, p, i)), N)))
    else:
        cx.shape('average', out, (S,))
        cx.all('mean over the events', (S,), lambda i: (
            out[i], cx.div(cx.sum(N, lambda e: cx.div(cx.sum(P, lambda p: shifted(e, p, i)), P)), N)))


@unit('C10', cost=2)
def average_waveform(cx):
    averaging(cx, False)


@unit('C10', cost=2)
def average_waveform_per_pixel(cx):
    averaging(cx, True)


# --------------------------------------------------------------------- C11
@unit('C11')
def dead_pixels(cx):
    m = cx.load(UTIL)
    src, N, P, S, ev = source(cx, 'ev', nmin=1)
    kw = {}
    frac, top = 0.1, 100
    if cx.choice('set_fraction', [False, True]):
        frac = kw['threshold_percent'] = cx.real('fraction', 0, conc=(0, 2))
    if cx.choice('set_max', [False, True]):
        top = kw['max_events'] = cx.int('max_events', 1, conc=(1, 9))
    out = m.obtain_dead_pixel_list_r1(src, **kw)
    n = cx.min2(N, top)
    peak = lambda p: cx.max(S, lambda i: cx.div(cx.sum(n, lambda e: ev[e, p, i]), n))
    mean = cx.mean(P, peak)
    cx.filtered('dead pixels', out, P, lambda p: peak(p) < mean * frac, lambda p: p)


# --------------------------------------------------------------------- C12
@unit('C12')
def time_correction(cx):
    m = cx.load(CAL + 'time_calibrator')
    P, S, w = waves(cx, smin=2, dtype=cx.choice('dtype', ['f4', 'f8']))
    w0 = cx.snapshot(w)
    c = cx.array('t_cor', (P,), 'f8', gen=lambda r, s: r.randint(-24, 25, size=s) / 8. * r.choice([1, 1, 8]))
    c0 = cx.snapshot(c)
    out = m.apply_t_cor(w, c)
    cx.shape('shape', out, (P, S))

    def value(p, i):
        x = i - c0[p]
        k = cx.clip(cx.floor(x), 0, S - 2)
        a, b = w0[p, k], w0[p, k + 1]
        return out[p, i], a + (b - a) * (x - k)
    cx.all('linear interpolation of the pixel', (P, S), value, tol=1e-4)
    cx.unchanged('waveforms', w, w0)
    cx.unchanged('corrections', c, c0)


@unit('C12')
def whole_sample_correction(cx):
    """Corrections that are whole numbers move samples exactly."""
    m = cx.load(CAL + 'time_calibrator')
    P, S, w = waves(cx, smin=2, dtype='f8')
    w0 = cx.snapshot(w)
    n = cx.array('n', (P,), 'i8', lo=-9, hi=9)
    out = m.apply_t_cor(w, n.astype('float64'))
    cx.all('moved', (P, S), lambda p, i: cx.implies(
        cx.and_(i - n[p] >= 0, i - n[p] < S), lambda: cx.same_value(out[p, i], w0[p, i - n[p]])))
    z = m.apply_t_cor(w, (n * 0).astype('float64'))
    cx.all('zero correction', (P, S), lambda p, i: (z[p, i], w0[p, i]))


@unit('C12')
def time_calibrator(cx):
    m = cx.load(CAL + 'time_calibrator')
    P, S, w = waves(cx, smin=2, dtype='f8')
    c = cx.array('t_cor', (P,), 'f8', gen=lambda r, s: r.randint(-24, 25, size=s) / 8.)
    path = cx.tmp('tc.dat')
    cx.write_csv(path, dict(pixel=cx.arange(P), t_cor=c))
    cx.patch(m, 'get_calib_data', lambda p: path)
    cal = m.TimeCalibrator()
    calls = []
    res = cx.array('res', (P, S), 'f8')

    def fake(waveforms, t_cor):
        calls.append((cx.snapshot(waveforms), cx.snapshot(t_cor)))
        return res
    cx.assume_contract('apply_t_cor by its contract (units C12.time_correction, C12.whole_sample_correction)')
    cx.patch(m, 'apply_t_cor', fake)
    out = cal(w)
    cx.eq('applied once', len(calls), 1)
    cx.same('waveforms', calls[0][0], w)
    cx.same('the corrections of the file', calls[0][1], c)
    cx.same('result', out, res)


# --------------------------------------------------------------------- C13
@unit('C13')
def amplitude_calibrator(cx):
    m = cx.load(CAL + 'amplitude_calibrator')
    P = cx.int('P', 1, conc=(1, 20))
    N = cx.int('N', 0, conc=(0, 30))
    ff = cx.array('ff', (P,), 'f8')
    ped = cx.array('ped', (P,), 'f8')
    conv = cx.real('conversion', gt=0, conc=(1, 9))
    f0, p0 = cx.snapshot(ff), cx.snapshot(ped)
    cal = m.AmplitudeCalibrator(ff, ped, conv)
    shape = cx.choice('shape', ['scalar', '1d', '2d'])
    expect = lambda v, q: (v - p0[q]) / conv * f0[q]
    if shape == 'scalar':
        q = cx.int('pixel', 0, conc=(0, 19))
        cx.assume(q < P)
        v = cx.real('value', conc=(-9, 99))
        cx.eq('calibrated', cal(v, q), expect(v, q))
    else:
        M = cx.int('M', 1, conc=(1, 4))
        dims = (N,) if shape == '1d' else (M, N)
        v = cx.array('values', dims, cx.choice('dtype', ['f4', 'f8']))
        q = cx.array('pixels', dims, 'i8', lo=0, hi=P - 1)
        v0, q0 = cx.snapshot(v), cx.snapshot(q)
        out = cal(v, q)
        cx.shape('calibrated', out, dims)
        cx.all('calibrated', dims, lambda *i: (out[i], expect(v0[i], q0[i])))
        cx.unchanged('values', v, v0)
        cx.unchanged('pixels', q, q0)
    cx.unchanged('ff', ff, f0)
    cx.unchanged('pedestal', ped, p0)


@unit('C13')
def illumination_profile(cx):
    m = cx.load(CAL + 'illumination_profile')
    P = cx.int('P', 1, conc=(1, 20))
    prof = cx.array('profile', (P,), 'f8', lo=cx.real('least', gt=0, conc=(1, 2)), gen=lambda r, s: r.randint(16, 40, size=s) / 8.)
    path = cx.tmp('profile.dat')
    cx.write_csv(path, dict(pixel=cx.arange(P), correction=prof))
    ip = m.IlluminationProfile(path)
    img = cx.array('image', (P,), 'f8')
    i0 = cx.snapshot(img)
    f, u = ip.fold(img), ip.unfold(img)
    cx.shape('fold', f, (P,))
    cx.shape('unfold', u, (P,))
    cx.all('fold multiplies', (P,), lambda p: (f[p], i0[p] * prof[p]))
    cx.all('unfold divides', (P,), lambda p: (u[p], i0[p] / prof[p]))
    back, there = ip.unfold(f), ip.fold(u)
    cx.all('unfold undoes fold', (P,), lambda p: (back[p], i0[p]))
    cx.all('fold undoes unfold', (P,), lambda p: (there[p], i0[p]))
    cx.unchanged('image', img, i0)
