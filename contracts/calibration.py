"""Contracts of pixel masks (C15) and amplitude matching (C14)."""
from pydv.registry import unit

MASKS = 'CHECLabPy.calib.pixel_masks'
NPIX, NSP = 2048, 512


def mask_file(cx, name):
    """A mask file of the camera: one row per pixel."""
    dead = cx.array('dead_' + name, (NPIX,), 'bool')
    low = cx.array('low_' + name, (NPIX,), 'bool')
    hv = cx.array('hv_' + name, (NPIX,), 'bool')
    path = cx.tmp('mask_%s.dat' % name)
    cx.write_csv(path, dict(pixel=cx.arange(NPIX), dead=dead, low=low, bad_hv=hv))
    spbad = lambda s: cx.or_(hv[4 * s], hv[4 * s + 1], hv[4 * s + 2], hv[4 * s + 3])
    return path, dead, low, spbad


def masks_are(cx, name, pm, dead, low, bad):
    cx.shape(name + ' dead', pm.dead, (NPIX,))
    cx.shape(name + ' low', pm.low, (NPIX,))
    cx.shape(name + ' bad_hv', pm.bad_hv, (NSP,))
    cx.all(name + ' dead', (NPIX,), lambda p: (pm.dead[p], dead(p)))
    cx.all(name + ' low', (NPIX,), lambda p: (pm.low[p], low(p)))
    cx.all(name + ' bad_hv', (NSP,), lambda s: (pm.bad_hv[s], bad(s)))
    a = pm.all_mask
    cx.shape(name + ' all', a, (NPIX,))
    cx.all(name + ' all', (NPIX,), lambda p: (a[p], cx.or_(dead(p), low(p), bad(p // 4))))


@unit('C15')
def load_replaces_merge_adds(cx):
    m = cx.load(MASKS)
    p1, d1, l1, b1 = mask_file(cx, 'a')
    p2, d2, l2, b2 = mask_file(cx, 'b')
    pm = m.PixelMasks(p1)
    masks_are(cx, 'created', pm, lambda p: d1[p], lambda p: l1[p], b1)
    merge = cx.choice('merge', [True, False, None])
    if merge is None:
        pm._load_file(p2)
    else:
        pm._load_file(p2, merge=merge)
    if merge:
        masks_are(cx, 'merged', pm, lambda p: cx.or_(d1[p], d2[p]), lambda p: cx.or_(l1[p], l2[p]),
                  lambda s: cx.or_(b1(s), b2(s)))
    else:
        masks_are(cx, 'loaded', pm, lambda p: d2[p], lambda p: l2[p], b2)


@unit('C15')
def save_and_load(cx):
    m = cx.load(MASKS)
    p1, d1, l1, b1 = mask_file(cx, 'a')
    pm = m.PixelMasks(p1)
    dead = cx.array('dead', (NPIX,), 'bool')
    low = cx.array('low', (NPIX,), 'bool')
    bad = cx.array('bad', (NSP,), 'bool')
    pm.dead, pm.low, pm.bad_hv = cx.snapshot(dead), cx.snapshot(low), cx.snapshot(bad)
    out = cx.tmp('sub/out.dat')
    pm._save_to_file(out)
    masks_are(cx, 'after saving', pm, lambda p: dead[p], lambda p: low[p], lambda s: bad[s])
    masks_are(cx, 'loaded again', m.PixelMasks(out), lambda p: dead[p], lambda p: low[p], lambda s: bad[s])
    if cx.choice('merge', [False, True]):
        other = m.PixelMasks(p1)
        other._load_file(out, merge=True)
        masks_are(cx, 'merged into another', other, lambda p: cx.or_(d1[p], dead[p]), lambda p: cx.or_(l1[p], low[p]),
                  lambda s: cx.or_(b1(s), bad[s]))
    masks_are(cx, 'in the end', pm, lambda p: dead[p], lambda p: low[p], lambda s: bad[s])


@unit('C15')
def combination(cx):
    """The overall mask of any state of the three masks."""
    m = cx.load(MASKS)
    p1, d1, l1, b1 = mask_file(cx, 'a')
    pm = m.PixelMasks(p1)
    dead = cx.array('dead', (NPIX,), 'bool')
    low = cx.array('low', (NPIX,), 'bool')
    bad = cx.array('bad', (NSP,), 'bool')
    pm.dead, pm.low, pm.bad_hv = cx.snapshot(dead), cx.snapshot(low), cx.snapshot(bad)
    masks_are(cx, 'state', pm, lambda p: dead[p], lambda p: low[p], lambda s: bad[s])
    masks_are(cx, 'state again', pm, lambda p: dead[p], lambda p: low[p], lambda s: bad[s])


@unit('C15')
def expansion(cx):
    m = cx.load(MASKS)
    p1, d1, l1, b1 = mask_file(cx, 'a')
    pm = cx.choice('how', [m.PixelMasks, m.PixelMasks(p1)])
    n = cx.int('n', 0, conc=(0, 12))
    per, f = cx.choice('of', [(4, 'convert_superpixels_to_pixels'), (64, 'convert_module_to_pixels')])
    lst = cx.array('lst', (n,), 'i8', 0, NPIX // per - 1)
    l0 = cx.snapshot(lst)
    out = getattr(pm, f)(lst)
    cx.shape('pixels', out, (n * per,))
    cx.all('pixels', (n * per,), lambda k: (out[k], l0[k // per] * per + k % per))
    cx.unchanged('list', lst, l0)


@unit('C15')
def expansion_of_one(cx):
    m = cx.load(MASKS)
    per, f = cx.choice('of', [(4, 'convert_superpixels_to_pixels'), (64, 'convert_module_to_pixels')])
    a, b = cx.int('a', 0, NPIX // per - 1), cx.int('b', 0, NPIX // per - 1)
    out = getattr(m.PixelMasks, f)([a, b])
    cx.shape('pixels', out, (2 * per,))
    cx.all('pixels', (2 * per,), lambda k: (out[k], cx.ite(k < per, lambda: a, lambda: b) * per + k % per))
    out = getattr(m.PixelMasks, f)(a)
    cx.shape('pixels of one', out, (per,))
    cx.all('pixels of one', (per,), lambda k: (out[k], a * per + k))


# --------------------------------------------------------------------- C14
AM = 'CHECLabPy.calib.amplitude_matcher'
STATE = ('current_dac', 'previous_dac', 'previous_distance', 'sp_mask', 'stage', 'iteration', 'global_stage')


class Calibrator:
    def __init__(self, n_pixels, n_samples, table=None):
        self.n_pixels, self.n_samples, self.table = n_pixels, n_samples, table

    def __call__(self, waveforms, fci):
        return self.table(waveforms, fci)


def step_spec(cx, isp, dac, dist, dirn, pdac, pdist, mask, stage, it):
    """(next dac, next stage) of superpixel isp."""
    step = cx.ite(stage[isp] == 0, lambda: 10, lambda: cx.ite(stage[isp] == 1, lambda: 5, lambda: 1))
    to = dac[isp] + step * dirn[isp]
    out = cx.or_(to > 255, to < 10)
    done = stage[isp] == 3
    grew = cx.and_(cx.not_(it == 0), pdist[isp] < dist[isp])
    d = cx.ite(done, lambda: dac[isp], lambda: cx.ite(mask[isp], lambda: 255, lambda: cx.ite(
        grew, lambda: pdac[isp], lambda: cx.ite(out, lambda: 255, lambda: to))))
    s = cx.ite(done, lambda: 3, lambda: cx.ite(mask[isp], lambda: 3, lambda: cx.ite(
        grew, lambda: stage[isp] + 1, lambda: cx.ite(out, lambda: 3, lambda: stage[isp]))))
    return d, s


def matcher(cx, m, n_sp, S, cal=None, **kw):
    dacs = cx.choice('dacs', [None, 'given'])
    if dacs is not None:
        dacs = cx.array('dacs', (n_sp,), 'i8', 10, 255)
    hv = cx.choice('bad_hv', [None, 'superpixel', 'pixel'])
    mask = lambda s: False
    if hv == 'superpixel':
        hv = cx.array('hv', (n_sp,), 'bool')
        mask = lambda s: hv[s]
    elif hv == 'pixel':
        hv = cx.array('hv', (4 * n_sp,), 'bool')
        mask = lambda s: cx.and_(hv[4 * s], hv[4 * s + 1], hv[4 * s + 2], hv[4 * s + 3])
    aim = cx.real('aim', gt=0, conc=(1, 100))
    am = m.AmplitudeMatcher(Calibrator(4 * n_sp, S, cal), aim, starting_dacs=dacs, bad_hv=hv, **kw)
    return am, aim, dacs, mask


def arbitrary_state(cx, am, n, inv=True):
    """Any state the matcher can be in: DACs within 10..255, stages 0..3."""
    cx.representation(am, *STATE)
    dac = cx.array('dac', (n,), 'i8', 10, 255)
    pdac = cx.array('pdac', (n,), 'i8', 10, 255)
    pdist = cx.array('pdist', (n,), 'f8', 0)
    mask = cx.array('mask', (n,), 'bool')
    stage = cx.array('stage', (n,), 'i2', 0, 3)
    it = cx.int('iteration', 0)
    for k, v in dict(current_dac=dac, previous_dac=pdac, previous_distance=pdist, sp_mask=mask, stage=stage).items():
        setattr(am, k, cx.snapshot(v))
    am.iteration = it
    return dac, pdac, pdist, mask, stage, it


@unit('C14', cost=3)
def start(cx):
    """A new matcher: nothing stepped, nothing finished, mask per superpixel."""
    m = cx.load(AM)
    n = cx.int('n_sp', 1, conc=(1, 20))
    am, aim, dacs, mask = matcher(cx, m, n, cx.int('S', 20, conc=(20, 40)))
    if cx.symbolic:
        cx.representation(am, *STATE)
    d0 = lambda s: 100 if dacs is None else dacs[s]
    for k in ('current_dac', 'previous_dac', 'stage', 'sp_mask', 'previous_distance'):
        cx.shape(k, getattr(am, k), (n,))
    cx.all('start', (n,), lambda s: dict(
        dac=(am.current_dac[s], d0(s)), stage=(am.stage[s], 0), mask=(am.sp_mask[s], mask(s))))
    cx.eq('iteration', am.iteration, 0)
    cx.eq('pass', am.global_stage, 0)
    cx.ensure('arrays not shared', am.current_dac is not am.previous_dac)


@unit('C14', cost=3)
def step(cx):
    """One iteration, from any state, for any measurement."""
    m = cx.load(AM)
    n = cx.int('n_sp', 1, conc=(1, 12))
    if cx.symbolic:
        am = m.AmplitudeMatcher(Calibrator(4 * n, 40), 50)
        dac, pdac, pdist, mask, stage, it = arbitrary_state(cx, am, n)
        dist = cx.array('dist', (n,), 'f8', 0)
        dirn = cx.array('dir', (n,), 'f8', -1, 1)
        cx.assume(cx.forall(n, lambda s: cx.or_(dirn[s] == -1, dirn[s] == 0, dirn[s] == 1)))
        d0, n0 = cx.snapshot(dist), cx.snapshot(dirn)
        out = am._get_next_dac(dist, dirn)
        cx.shape('dac', out, (n,))

        def sp(s):
            d, st = step_spec(cx, s, dac, d0, n0, pdac, pdist, mask, stage, it)
            return dict(dac=(out[s], d), stage=(am.stage[s], st), current=(am.current_dac[s], d),
                        previous=(am.previous_dac[s], dac[s]), distance=(am.previous_distance[s], d0[s]),
                        low=out[s] >= 10, high=out[s] <= 255, mask=(am.sp_mask[s], mask[s]))
        cx.all('next', (n,), sp)
        cx.eq('iteration', am.iteration, it + 1)
    else:
        am, aim, dacs, mask0 = matcher(cx, m, n, cx.int('S', 20, conc=(20, 40)))
        dac = [100] * n if dacs is None else [int(x) for x in dacs]
        mask = [mask0(s) for s in range(n)]
        stage, pdac, pdist = [0] * n, list(dac), [0] * n
        for it in range(cx.int('steps', 0, conc=(0, 60))):
            dist = cx.array('dist%d' % it, (n,), 'f8', 0, 2) * (0.3 if it % 7 else 1) / (1 + it)
            dirn = cx.array('dir%d' % it, (n,), 'i8', -1, 1).astype(float) if it % 3 else cx.np.full(n, cx.choice('all%d' % it, [1., -1., 0.]))
            out = am._get_next_dac(dist.copy(), dirn.copy())
            cx.shape('dac', out, (n,))
            new = [step_spec(cx, s, dac, dist, dirn, pdac, pdist, mask, stage, it) for s in range(n)]
            pdac, pdist = dac, dist
            dac, stage = [x[0] for x in new], [x[1] for x in new]
            cx.all('next', (n,), lambda s: dict(dac=(out[s], dac[s]), stage=(am.stage[s], stage[s]),
                                                low=out[s] >= 10, high=out[s] <= 255))


class Run:
    """A run of N raw events (the contract assumed for ReaderR0)."""

    def __init__(self, src, n_pixels):
        self.src, self.n_events, self.n_pixels = src, src.n_events, n_pixels

    def __iter__(self):
        return iter(self.src)


@unit('C14', cost=4)
def measurement(cx):
    """Amplitude of a superpixel: mean over events and its 4 pixels of the
    maximum of the calibrated waveform, unfolded by the illumination profile."""
    m = cx.load(AM)
    n = cx.int('n_sp', 1, conc=(1, 6))
    am, aim, dacs, mask0 = matcher(cx, m, n, cx.int('S', 20, conc=(20, 40)))
    N = cx.int('N', 1, conc=(1, 8))
    a = cx.array('a', (N, 4 * n), 'f8')
    average, direction, distance = am._calculate_average(a)
    av = lambda s: cx.div(cx.sum(N, lambda e: cx.sum(4, lambda k: a[e, 4 * s + k])), 4 * N)
    for k, v in dict(average=average, direction=direction, distance=distance).items():
        cx.shape(k, v, (n,))
    cx.all('superpixel', (n,), lambda s: dict(
        average=(average[s], av(s)),
        direction=(direction[s], cx.ite(average[s] > aim, lambda: 1, lambda: cx.ite(average[s] < aim, lambda: -1, lambda: 0))),
        distance=(distance[s], cx.div(average[s] - aim, aim) * cx.div(average[s] - aim, aim))))


class Profile:
    def __init__(self, unfold):
        self.unfold = unfold


@unit('C14', cost=6)
def extraction(cx):
    """Amplitudes per event and pixel that one iteration starts from."""
    m = cx.load(AM)
    cx.assume_contract('ReaderR0 iterates over the events of the run (C26); the calibrator returns an array of the shape of the event')
    n = cx.int('n_sp', 1, conc=(1, 3))
    S = cx.int('S', 20, conc=(20, 30))
    N = cx.int('N', 1, conc=(1, 4))
    ev = cx.array('ev', (N, 4 * n, S), 'f4')
    coef = cx.array('coef', (4 * n,), 'f8', 0.5, 2)
    prof = cx.choice('profile', [False, True])
    kw = dict(illumination_profile=Profile(lambda a: a / coef)) if prof else {}
    am = m.AmplitudeMatcher(Calibrator(4 * n, S, lambda w, fci: w * 2), 50, **kw)
    got = []
    src = cx.source(N, 4 * n, S, ev)

    def reader(path, max_events=None):
        got.append(path)
        return src
    cx.patch(m, 'ReaderR0', reader)
    a = am._extract_amplitude_array('run_r0.tio')
    cx.ensure('path', got == ['run_r0.tio'])
    cx.shape('amplitudes', a, (N, 4 * n))
    cx.all('amplitudes', (N, 4 * n), lambda e, p: (
        a[e, p], cx.div(cx.max(S, lambda i: ev[e, p, i] * 2), coef[p] if prof else 1)))


@unit('C14', cost=8)
def process(cx):
    """One call of process, from any state: passes, completion, shape."""
    m = cx.load(AM)
    N = cx.int('N', 1, conc=(1, 3))
    cx.assume_contract('the amplitudes of the events are those of C14.extraction')
    aim = 50 if cx.symbolic else 64
    am = m.AmplitudeMatcher(Calibrator(4 * NSP, 40), aim)
    if cx.symbolic:
        dac, pdac, pdist, mask, stage, it = arbitrary_state(cx, am, NSP)
        gs = cx.choice('pass', [0, 1, 2, 3])
        am.global_stage = gs
        a = cx.array('a', (N, 4 * NSP), 'f8')
        cx.patch(am, '_extract_amplitude_array', lambda path: cx.snapshot(a))
        out, mean, finished = am.process('x')
        turns = [(out, mean, finished, a, dac, pdac, pdist, mask, stage, it, gs)]
    else:
        bad = cx.array('bad', (NSP,), 'bool')
        d0 = cx.array('d0', (NSP,), 'i8', 10, 255)
        am = m.AmplitudeMatcher(Calibrator(4 * NSP, 40), aim, starting_dacs=d0, bad_hv=bad if cx.bool('m') else None)
        turns = []
        # binary fractions: no rounding decides between two equal distances
        g = cx.int('gain', conc=(1, 2048)) / 1024
        for it in range(cx.int('turns', 1, conc=(1, 150))):
            st = [cx.np.array(getattr(am, k)) for k in STATE]
            noise = cx.array('noise', (4 * NSP,), 'i4', -300, 300) / 1024
            a = cx.np.tile((aim + g * (150 - cx.np.repeat(st[0], 4)) + noise * (it % 3 == 1))[None], (N, 1))
            cx.patch(am, '_extract_amplitude_array', lambda path: a.copy())
            out, mean, finished = am.process('x')
            turns.append((out, mean, finished, a, st[0], st[1], st[2], st[3], st[4], int(st[5]), int(st[6])))
            if it > 3 and turns[-3][2]:
                break
    for out, mean, finished, a, dac, pdac, pdist, mask, stage, it, gs in turns[-8:]:
        cx.shape('DACs', out, (32, 16))
        cx.shape('mean amplitude', mean, (4 * NSP,))
        cx.all('mean amplitude', (4 * NSP,), lambda p: (mean[p], cx.div(cx.sum(N, lambda e: a[e, p]), N)))
        cx.ensure('completion', finished is True if gs == 3 else finished is False)
        if gs == 3:
            cx.all('no change', (32, 16), lambda r, c: (out[r, c], dac[16 * r + c]))
            if cx.symbolic:
                cx.eq('pass', am.global_stage, 3)
                cx.all('state kept', (NSP,), lambda s: dict(dac=(am.current_dac[s], dac[s]), stage=(am.stage[s], stage[s])))
            continue
        av = lambda s: cx.div(cx.sum(N, lambda e: cx.sum(4, lambda k: a[e, 4 * s + k])), 4 * N)
        st = lambda s: 2 if gs == 1 else stage[s]
        i2 = 0 if gs == 1 else it

        class Fn:
            def __init__(self, f):
                self.f = f

            def __getitem__(self, s):
                return self.f(s)
        dist = Fn(lambda s: cx.div(av(s) - aim, aim) * cx.div(av(s) - aim, aim))
        dirn = Fn(lambda s: cx.ite(av(s) > aim, lambda: 1, lambda: cx.ite(av(s) < aim, lambda: -1, lambda: 0)))

        def one(s):
            d, ns = step_spec(cx, s, dac, dist, dirn, pdac, pdist, mask, Fn(st), i2)
            return d, ns
        cx.all('next dac', (32, 16), lambda r, c: (out[r, c], one(16 * r + c)[0]))
        if cx.symbolic:
            cx.all('next stage', (NSP,), lambda s: (am.stage[s], one(s)[1]))
            done = cx.forall(NSP, lambda s: am.stage[s] == 3)
            cx.eq('pass', am.global_stage, cx.ite(done, lambda: (2 if gs == 1 else gs) + 1, lambda: 2 if gs == 1 else gs))
            cx.eq('iteration', am.iteration, i2 + 1)
