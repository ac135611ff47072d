"""Contracts of the spectrum fitters (C18, C19, C20)."""
from pydv.registry import unit

SF = 'CHECLabPy.core.spectrum_fitter'
NAMES = ['eped', 'lambda_', 'spe', 'lambda']        # one is the start of another


def draw_values(cx, tag, names):
    return {n: dict(initial=cx.real('%s_initial_%s' % (tag, n), conc=(-5, 5)),
                    limits=(cx.real('%s_lo_%s' % (tag, n), conc=(-9, -5)), cx.real('%s_hi_%s' % (tag, n), conc=(5, 9))),
                    fixed=cx.bool('%s_fixed_%s' % (tag, n))) for n in names}


def draw_list(cx, tag, most=3):
    """Names and multi flags of a list of parameters, and their values."""
    names = NAMES[:cx.choice(tag + '_length', list(range(1, most + 1)))]
    multi = {n: cx.choice('%s_multi_%s' % (tag, n), [True, False]) for n in names}
    return names, multi, draw_values(cx, tag, names)


def parameters_of(m, names, multi, val):
    return [m.SpectrumParameter(n, val[n]['initial'], val[n]['limits'], val[n]['fixed'], multi[n]) for n in names]


def expected(names, multi, val, N):
    """Fit parameter -> (name, illumination or None)"""
    out = {}
    for n in names:
        for i in range(N) if multi[n] else [None]:
            out[n if i is None else n + str(i)] = n
    return out


def books(cx, when, col, names, multi, val, N):
    exp = expected(names, multi, val, N)
    pn = col.parameter_names
    cx.keys(when + ': parameter names', pn, list(exp))
    kwargs_are(cx, when, col.minuit_kwargs, names, multi, val, N)
    cx.eq(when + ': lookups', len(col.lookup), N)
    cx.eq(when + ': typed lookups', len(col.lookup_typed), N)
    for i in range(N):
        for what, lk in (('lookup', col.lookup[i]), ('typed lookup', col.lookup_typed[i])):
            cx.keys('%s: %s keys' % (when, what), list(lk), names)
            for n in names:
                cx.eq('%s: %s' % (when, what), pn[lk[n]], n + str(i) if multi[n] else n)


def kwargs_are(cx, when, kw, names, multi, val, N):
    exp = expected(names, multi, val, N)
    cx.keys(when + ': fit arguments', kw, [p + e for e in exp for p in ('', 'limit_', 'fix_')])
    for e, n in exp.items():
        cx.eq(when + ': initial', kw[e], val[n]['initial'])
        cx.eq(when + ': limits', tuple(kw['limit_' + e]), val[n]['limits'])
        cx.eq(when + ': fixed', kw['fix_' + e], val[n]['fixed'])


BOUND = 'lists of up to 3 parameters and up to 3 illuminations enumerated; all values symbolic'


@unit('C18', bounded=BOUND)
def bookkeeping(cx):
    m = cx.load(SF)
    names, multi, val = draw_list(cx, 'first')
    N = cx.choice('N', [1, 2, 3])
    params = parameters_of(m, names, multi, val)
    col = m.SpectrumParameterCollection(params, N)
    books(cx, 'created', col, names, multi, val, N)
    cx.eq('number of parameters', len(col), len(names))
    cx.ensure('the parameters in order', [p.name for p in col] == names)
    cx.ensure('attributes', all(getattr(col, n) is p for n, p in zip(names, params)))


@unit('C18', bounded='lists of up to 2 parameters (3 concretely) and up to 3 illuminations enumerated; all values symbolic')
def updating(cx):
    m = cx.load(SF)
    names, multi, val = draw_list(cx, 'first', 2 if cx.symbolic else 3)
    N = cx.choice('N', [1, 2, 3])
    col = m.SpectrumParameterCollection(parameters_of(m, names, multi, val), N)
    if cx.choice('looked up before', [True, False]):
        books(cx, 'created', col, names, multi, val, N)
    new = [n for n in names if cx.choice('update_' + n, [True, False])]
    multi = dict(multi, **{n: cx.choice('new_multi_' + n, [True, False]) for n in new})
    val = dict(val, **draw_values(cx, 'new', new))
    col.update(parameters_of(m, list(reversed(new)), multi, val))
    books(cx, 'updated', col, names, multi, val, N)


def fake_minuit(cx, m, results):
    """A minimiser that records what it is given and returns the given
    results."""
    calls = []

    class Minuit:
        def __init__(self, fcn, **kw):
            self.kw = kw
            names = kw['forced_parameters']
            r = results[len(calls)]
            calls.append(self)
            self.values = {n: r('value', n) for n in names}
            self.errors = {n: r('error', n) for n in names}
            self.fcn = fcn

        def migrad(self, **kw):
            pass

        def hesse(self, **kw):
            pass
    cx.patch(cx.load('iminuit'), 'Minuit', Minuit)
    if hasattr(m, 'Minuit'):
        cx.patch(m, 'Minuit', Minuit)
    return calls


OPTIONS = ('print_level', 'pedantic', 'throw_nan', 'errordef', 'forced_parameters')


def fit(cx, when, fitter, calls, names, multi, val, N):
    """Fit anything: the fit starts from the given parameters."""
    k = len(calls)
    fitter.apply(*[cx.array('charges%d_%d' % (k, i), (4,), 'f8', -5, 5) for i in range(N)])
    cx.eq(when + ': fits', len(calls), k + 1)
    kw = dict(calls[k].kw)
    for o in OPTIONS[:-1]:
        kw.pop(o, None)
    forced = kw.pop('forced_parameters')
    kwargs_are(cx, when, kw, names, multi, val, N)
    cx.eq(when + ': order of the parameters', list(forced), list(fitter.parameters.parameter_names))
    for i in range(N):
        for n in names:
            cx.eq(when + ': position of the value', forced[fitter.parameters.lookup_typed[i][n]], n + str(i) if multi[n] else n)
    for e in forced:
        cx.eq(when + ': fitted value', fitter.fit_result_values[e], calls[k].values[e])
        cx.eq(when + ': fitted error', fitter.fit_result_errors[e], calls[k].errors[e])


def config(cx, names, val):
    """A configuration document overriding some of the settings, and the
    settings it leads to."""
    d, val = {}, {n: dict(v) for n, v in val.items()}
    for key in ('initial', 'limits', 'fixed'):
        for n in names:
            if cx.choice('set_%s_%s' % (key, n), [True, False]):
                new = draw_values(cx, 'file_' + key, [n])[n][key]
                d.setdefault(key, {})[n] = list(new) if key == 'limits' else new
                val[n][key] = new
    return d, val


@unit('C18', bounded='2 parameters, up to 2 illuminations enumerated (more concretely); all values symbolic')
def next_fit(cx):
    m = cx.load(SF)
    if cx.symbolic:
        names, multi = ['eped', 'lambda_'], dict(eped=False, lambda_=True)
        val = draw_values(cx, 'first', names)
    else:
        names, multi, val = draw_list(cx, 'first')
    N = cx.choice('N', [1, 2])
    f = m.SpectrumFitter(N)
    f.range = (-5, 5)
    f.n_bins = 3
    f.parameters = m.SpectrumParameterCollection(parameters_of(m, names, multi, val), N)
    result = {}

    def res(k):
        def g(what, n):
            key = '%s%d_%s' % (what, k, n)
            if key not in result:
                result[key] = cx.real(key, conc=(-4, 4))
            return result[key]
        return g
    calls = fake_minuit(cx, m, [res(k) for k in range(3)])
    cx.must_raise('no fit yet', lambda: f.update_initial(), ValueError)
    act = cx.choice('action', ['nothing', 'update', 'load', 'replace'])
    if cx.choice('fitted before', [True, False]) or act == 'replace':
        fit(cx, 'first fit', f, calls, names, multi, val, N)
    if act == 'update':
        new = draw_values(cx, 'new', names[:1])
        val = dict(val, **new)
        f.parameters.update(parameters_of(m, names[:1], multi, val))
    elif act == 'load':
        d, val = config(cx, names, val)
        p = cx.tmp('config.yml')
        cx.write_yaml(p, d)
        f.load_config(p)
    elif act == 'replace':
        i = cx.choice('illumination', list(range(N)))
        f.update_initial(i) if i or cx.choice('explicit', [True, False]) else f.update_initial()
        val = {n: dict(val[n], initial=res(0)('value', n + str(i) if multi[n] else n)) for n in names}
    fit(cx, 'next fit', f, calls, names, multi, val, N)


@unit('C18', bounded='the parameters of the two fitters and of one three-parameter list; all values symbolic')
def save_and_load(cx):
    which = cx.choice('fitter', ['generic', 'gentile', 'mapm'])
    m = cx.load(SF)
    N = cx.choice('N', [1, 2])

    def make(tag):
        if which == 'generic':
            f = m.SpectrumFitter(N)
            names = ['eped', 'lambda_', 'spe']
            f.parameters = m.SpectrumParameterCollection(
                parameters_of(m, names, dict(eped=False, lambda_=True, spe=False), draw_values(cx, tag, names)), N)
        else:
            f = getattr(cx.load('CHECLabPy.spectrum_fitters.' + which), {'gentile': 'SiPMGentileFitter', 'mapm': 'MAPMFitter'}[which])(N)
            if tag == 'a':
                v = draw_values(cx, tag, [p.name for p in f.parameters])
                for p in f.parameters:
                    p.initial, p.limits, p.fixed = v[p.name]['initial'], v[p.name]['limits'], v[p.name]['fixed']
        return f
    a, b = make('a'), make('b')
    a.n_bins = cx.int('n_bins', 1, conc=(1, 300))
    a.range = (cx.real('lo', conc=(-50, -10)), cx.real('hi', conc=(10, 300)))
    want = {p.name: dict(initial=p.initial, limits=p.limits, fixed=p.fixed) for p in a.parameters}
    names, multi = [p.name for p in a.parameters], {p.name: p.multi for p in a.parameters}
    path = cx.tmp('saved.yml')
    a.save_config(path)
    b.load_config(path)
    for f, who in ((b, 'loaded'), (a, 'saved')):
        cx.eq(who + ' bins', f.n_bins, a.n_bins)
        cx.eq(who + ' range', tuple(f.range), tuple(a.range))
        cx.ensure(who + ' parameters', [p.name for p in f.parameters] == names)
        for p in f.parameters:
            cx.eq(who + ' initial', p.initial, want[p.name]['initial'])
            cx.eq(who + ' limits', tuple(p.limits), want[p.name]['limits'])
            cx.eq(who + ' fixed', p.fixed, want[p.name]['fixed'])
            cx.eq(who + ' multi', p.multi, multi[p.name])
    books(cx, 'loaded', b.parameters, names, multi, want, N)


# --------------------------------------------------------------------- C19
def area(cx, n, y, x):
    """Area under the n >= 1 points (x(j), y(j)) joined by straight lines."""
    return cx.sum(n - 1, lambda j: (x(j + 1) - x(j)) * (y(j) + y(j + 1)) / 2)


@unit('C19', cost=2, bounded='1 to 3 illuminations enumerated; everything else unbounded')
def histograms(cx):
    """Fitting fills the histograms, and what is minimised is the likelihood
    of exactly these histograms for the values tried."""
    m = cx.load(SF)
    N = cx.choice('N', [1, 2, 3])
    f = m.SpectrumFitter(N)
    names, multi = ['eped', 'lambda_'], dict(eped=False, lambda_=True)
    f.parameters = m.SpectrumParameterCollection(parameters_of(m, names, multi, draw_values(cx, 'p', names)), N)
    calls = fake_minuit(cx, m, [lambda what, n: 0., lambda what, n: 1.])
    for turn in range(2):       # nothing is left of an earlier fit
        t = '%s%d' % ('fit', turn)
        B = f.n_bins = cx.int(t + '_bins', 1, conc=(1, 12))
        lo, hi = cx.real(t + '_lo', conc=(-6, 3)), cx.real(t + '_hi', conc=(-5, 12))
        cx.assume(lo < hi)
        f.range = (lo, hi)
        M = [cx.int('%s_M%d' % (t, i), 0, conc=(0, 40)) for i in range(N)]
        charges = [cx.array('%s_charges%d' % (t, i), (M[i],), 'f8', -10, 15) for i in range(N)]
        f.apply(*charges)
        if cx.symbolic:
            edge = lambda b: lo + b * (hi - lo) / B
        else:
            edge = lambda b, e=cx.np.linspace(lo, hi, B + 1): e[b]
        inside = lambda x, b: cx.and_(edge(b) <= x, cx.or_(x < edge(b + 1), cx.and_(b == B - 1, x == hi)))
        x, ys, edges = f.charge_histogram
        cx.eq('histograms', len(ys), N)
        cx.shape('x', x, (B,))
        cx.shape('edges', edges, (B + 1,))
        cx.all('edges', (B + 1,), lambda b: (edges[b], edge(b)))
        cx.all('x at the centres', (B,), lambda b: (x[b], (edge(b) + edge(b + 1)) / 2))
        for i in range(N):
            cx.shape('histogram', ys[i], (B,))
            cx.all('histogram', (B,), lambda b: (ys[i][b], cx.sum(M[i], lambda k: cx.ite(inside(charges[i][k], b), 1, 0))))
        # the function being minimised
        seen = []

        def likelihood(n_illuminations, data_x, data_y, lookup, *values):
            seen.append((n_illuminations, data_x, data_y, lookup, values))
            if wrong:
                raise ZeroDivisionError
            return L
        cx.patch(f, '_get_likelihood', likelihood)
        L = cx.real(t + '_L', conc=(0, 50))
        tried = [cx.real('%s_tried%d' % (t, i), conc=(-2, 2)) for i in range(N + 1)]
        wrong = False
        cx.eq('value minimised', calls[turn].fcn(*tried), L)
        n, dx, dy, lk, values = seen[0]
        cx.eq('illuminations', n, N)
        cx.eq('values tried', list(values), tried)
        cx.eq('histograms compared', len(dy), N)
        cx.same('x of the comparison', dx, x)
        for i in range(N):
            cx.same('histogram of the comparison', dy[i], ys[i])
            for p in names:
                cx.eq('lookup', f.parameters.parameter_names[lk[i][p]], p + str(i) if multi[p] else p)
        wrong = True
        cx.ensure('undefined likelihood', calls[turn].fcn(*tried) == float('inf'))
    cx.must_raise('other number of illuminations', lambda: f.apply(*(charges + charges[:1])), AssertionError)


def counts(r, shape):
    return r.poisson(r.choice([.3, 4, 30]), size=shape)


@unit('C19', bounded='1 to 3 illuminations enumerated; everything else unbounded')
def curves(cx):
    m = cx.load(SF)
    N = cx.choice("N", [1, 2] if cx.symbolic else [1, 2, 3])
    f = m.SpectrumFitter(N)
    names, multi = ['eped', 'lambda_'], dict(eped=False, lambda_=True)
    f.parameters = m.SpectrumParameterCollection(parameters_of(m, names, multi, draw_values(cx, 'p', names)), N)
    B = f.n_bins = cx.int('bins', 1, conc=(1, 12))
    lo, hi = cx.real('lo', conc=(-6, 3)), cx.real('hi', conc=(-5, 12))
    cx.assume(lo < hi)
    f.range = (lo, hi)
    n = 10 * B
    hx = f.charge_hist_x = cx.build((B,), lambda b: lo + (2 * b + 1) * (hi - lo) / (2 * B), 'f4')
    f.charge_hist_edges = cx.build((B + 1,), lambda b: lo + b * (hi - lo) / B, 'f4')
    hy = f.charge_hist_y = [cx.array('hist_y%d' % i, (B,), 'f4', gen=counts) for i in range(N)]
    f.charge_hist_y_typed = [cx.snapshot(h) for h in hy]
    f.fit_result_values = {p: cx.real('value_' + p, conc=(-2, 2)) for p in f.parameters.parameter_names}
    spectra = [cx.array('spectrum%d' % i, (n,), 'f8', gen=lambda r, s: r.rand(*s)) for i in range(N)]
    seen = []

    def get(n_illuminations, data_x, lookup, *values):
        seen.append((n_illuminations, data_x, lookup, values))
        return [cx.snapshot(s) for s in spectra]
    cx.patch(f, '_get_spectra', get)
    x = lambda j: lo + j * (hi - lo) / (n - 1)
    points = cx.np.linspace(lo, hi, n)
    spe_area = [area(cx, n, lambda j: s[j], lambda j: points[j]) for s in spectra]
    hist_area = [area(cx, B, lambda b: h[b], lambda b: hx[b]) for h in hy]
    for i in range(N):
        cx.assume(spe_area[i] > 0.01 if not cx.symbolic else spe_area[i] > 0)
    fx, fy = f.fit_result_curve
    cx.shape('x', fx, (n,))
    cx.all('x', (n,), lambda j: (fx[j], x(j)))
    cx.eq('curves', len(fy), N)
    for i in range(N):
        cx.shape('curve', fy[i], (n,))
        cx.all('curve', (n,), lambda j: (fy[i][j], spectra[i][j] * hist_area[i] / spe_area[i]))
        if cx.symbolic:
            # the curve is the spectrum times c = histogram area / spectrum
            # area (proved above); the area is linear
            c = cx.real('scale')
            cx.eq('area of the curve: linear', area(cx, n, lambda j: spectra[i][j] * c, lambda j: points[j]), c * spe_area[i])
            h, a = cx.real('any_area'), cx.real('other_area', gt=0)
            cx.eq('area of the curve: scale', h / a * a, h)
        else:
            cx.eq('area of the curve', area(cx, n, lambda j: fy[i][j], lambda j: fx[j]), hist_area[i], tol=1e-3)
    k, dx, lk, values = seen[0]
    cx.eq('illuminations', k, N)
    cx.same('points evaluated', dx, fx)
    cx.eq('fitted values', list(values), [f.fit_result_values[p] for p in f.parameters.parameter_names])
    for i in range(N):
        for p in names:
            cx.eq('lookup', f.parameters.parameter_names[lk[i][p]], p + str(i) if multi[p] else p)


FITTERS = dict(gentile=('SiPMGentileFitter', 'sipm_gentile_spe', ['eped', 'eped_sigma', 'spe', 'spe_sigma', 'opct', 'lambda_']),
               mapm=('MAPMFitter', 'mapm_spe', ['eped', 'eped_sigma', 'spe', 'spe_sigma', 'lambda_']))


def fitter_of(cx, which, N):
    """A fitter, values for its parameters, and the spectrum of illumination i
    as a function of (x, i).  Proofs use an arbitrary positive function for
    the spectrum (its own contract is C20) and an arbitrary one for the
    logarithm of the Poisson probability (C21)."""
    cls, fn, args = FITTERS[which]
    m = cx.load('CHECLabPy.spectrum_fitters.' + which)
    f = getattr(m, cls)(N)
    pn = f.parameters.parameter_names
    lim = dict(eped=(-3, 3), eped_sigma=(1, 6), spe=(5, 20), spe_sigma=(.5, 3), opct=(0.05, .6), lambda_=(.1, 4))
    val = {n: cx.real(n, conc=lim[n if n in lim else n[:-1]]) for n in pn}
    of = lambda i: {a: val[a if a in val else a + str(i)] for a in args}
    if cx.symbolic:
        g = cx.function('spe', len(args) + 1)

        def stub(x, **k):
            cx.keys('arguments of the spectrum', k, args)
            return cx.build(x.shape, lambda j: cx.exp(g(x[j], *[k[a] for a in args])))
        cx.patch(m, fn, stub)
        lp = cx.function('poisson_logpmf', 2)
        cx.patch(m, 'poisson_logpmf', lambda k, mu: cx.build(k.shape, lambda j: lp(k[j], mu[j])))
        spectrum = lambda x, i: stub(x, **of(i))
    else:
        lp = None
        spectrum = lambda x, i: getattr(m, fn)(x, **of(i))
    return f, [val[n] for n in pn], spectrum, lp


@unit('C19', cost=2, bounded='1 to 3 illuminations enumerated; everything else unbounded')
def likelihood(cx):
    N = cx.choice('N', [1, 2, 3])
    f, values, spectrum, lp = fitter_of(cx, cx.choice('fitter', ['gentile', 'mapm']), N)
    B = cx.int('bins', 2, conc=(2, 25))
    x = cx.array('x', (B,), 'f4', gen=lambda r, s: r.uniform(-15, -5) + r.uniform(.5, 3) * cx.np.arange(s[0]))
    y = [cx.array('y%d' % i, (B,), 'f4', 0, gen=counts) for i in range(N)]
    s = [spectrum(x, i) for i in range(N)]
    sa = [area(cx, B, lambda j: a[j], lambda j: x[j]) for a in s]
    ya = [area(cx, B, lambda j: a[j], lambda j: x[j]) for a in y]
    for i in range(N):
        cx.assume(cx.and_(sa[i] > (0 if cx.symbolic else 1e-3), ya[i] > 0))
        if not cx.symbolic:     # where the model underflows, its logarithm is no number
            cx.assume((s[i] > 1e-30).all())
    typed = cx.typed_list([cx.snapshot(a) for a in y])
    got = f._get_likelihood(N, cx.snapshot(x), typed, f.parameters.lookup_typed, *values)

    def term(i, b):
        mu, k = s[i][b] * (ya[i] / sa[i]), y[i][b]
        if cx.symbolic:
            return -2 * lp(k, mu)
        return -2 * (cx.ite(k == 0, lambda: 0, lambda: k * cx.log(mu)) - mu - cx.lgamma(k + 1))
    want = 0
    for i in range(N):
        want = want + cx.sum(B, lambda b: term(i, b))
    cx.eq('likelihood', got, want)
    for i in range(N):
        cx.same('histogram unchanged', typed[i], y[i])


@unit('C19', bounded='1 to 3 illuminations enumerated; everything else unbounded')
def spectra(cx):
    N = cx.choice('N', [1, 2, 3])
    f, values, spectrum, lp = fitter_of(cx, cx.choice('fitter', ['gentile', 'mapm']), N)
    B = cx.int('points', 1, conc=(1, 25))
    x = cx.array('x', (B,), 'f4', -15, 60)
    got = f._get_spectra(N, cx.snapshot(x), f.parameters.lookup_typed, *values)
    cx.eq('spectra', len(got), N)
    for i in range(N):
        cx.same('spectrum', got[i], spectrum(x, i))


# --------------------------------------------------------------------- C20
def spe_contract(cx, which):
    """The spectrum at every x equals the sum over the peaks, with the
    probability functions of CHECLabPy.stats.pdf (C21)."""
    cls, fn, args = FITTERS[which]
    m = cx.load('CHECLabPy.spectrum_fitters.' + which)
    pdf = cx.load('CHECLabPy.stats.pdf')
    if cx.symbolic:     # callees by contract: arbitrary functions (their definitions are C21)
        g = cx.function('normal_pdf', 3)
        pdf = cx.module('pdf', poisson=cx.function('poisson', 2), binom=cx.function('binom', 2),
                        normal_pdf=lambda x, a, b: cx.build(x.shape, lambda j: g(x[j], a, b)) if cx.is_array(x) else g(x, a, b))
        for n in ('poisson', 'binom', 'normal_pdf'):
            if hasattr(m, n):
                cx.patch(m, n, getattr(pdf, n))
    B = cx.int('points', 1, conc=(1, 8))
    x = cx.array('x', (B,), 'f4', gen=lambda r, s: r.uniform(-20, r.choice([150, 900]), size=s))
    eped, sigma = cx.real('eped', conc=(-5, 5)), cx.real('eped_sigma', gt=0, conc=(.5, 12))
    spe, spe_sigma = cx.real('spe', conc=(1, 40)), cx.real('spe_sigma', 0, conc=(.5, 12))
    lam = cx.real('lambda_', gt=0, conc=(.02, 25))
    kw = dict(eped=eped, eped_sigma=sigma, spe=spe, spe_sigma=spe_sigma, lambda_=lam)
    if which == 'gentile':
        ct = kw['opct'] = cx.real('opct', gt=0, conc=(.01, .9))
        cx.assume(ct < 1)

        def weight(k):
            def term(j):
                p = pdf.poisson(j + 1, lam)
                return cx.ite(p < 1e-4, lambda: 0, lambda: p * cx.pow(1 - ct, j + 1) * cx.pow(ct, k - (j + 1)) * pdf.binom(k - 1, j))
            return cx.sum(k, term)
    else:
        weight = lambda k: pdf.poisson(k, lam)
    largest = lambda q: cx.ite(q > 0, lambda: cx.max2(cx.max(q, lambda i: weight(i + 1)), 0), 0)
    stop = cx.first(99, lambda q: cx.and_(cx.not_(weight(q + 1) > largest(q)), lambda: weight(q + 1) < 1e-4))
    got = getattr(m, fn)(x=cx.snapshot(x), **kw)
    peak = lambda k, v: weight(k) * pdf.normal_pdf(v, eped + k * spe, cx.sqrt(k * spe_sigma * spe_sigma + sigma * sigma))
    cx.shape('spectrum', got, (B,))
    cx.all('spectrum', (B,), lambda j: (
        got[j], cx.exp(-lam) * pdf.normal_pdf(x[j], eped, sigma) + cx.sum(stop, lambda q: peak(q + 1, x[j]))), tol=1e-8)


@unit('C20', cost=2)
def sipm(cx):
    spe_contract(cx, 'gentile')


@unit('C20', cost=2)
def mapm(cx):
    spe_contract(cx, 'mapm')
