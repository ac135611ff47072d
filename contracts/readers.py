"""Contracts of the waveform readers (C26)."""
from pydv.registry import unit

TIO = 'CHECLabPy.core.io.tio'


class Camera:
    def __init__(self, cx, version):
        self.version = version

    def GetMapping(self, single):
        return ('mapping', single)

    def GetNCells(self):
        return 16384

    def GetVersion(self):
        return self.version

    def GetReferencePulsePath(self):
        return 'pulse.txt'


class File:
    """The contents of a TIO file: the assumed contract of target_io."""

    def __init__(self, cx, nmax=8, nmin=0, small=False):
        self.N = cx.int('N', nmin, conc=(nmin, nmin + nmax))
        self.tmpix = 4 * cx.int('tmpix', 1, conc=(1, 2))
        self.M = cx.int('M', 1, conc=(1, 3))
        self.P = self.tmpix * self.M
        self.S = cx.int('S', 1, conc=(1, 6))
        self.SP = cx.int('SP', 1, conc=(1, 4))
        self.r1 = cx.choice('r1', [True, False])
        self.ev = cx.array('ev', (self.N, self.P, self.S), 'f4' if self.r1 else 'u2')
        self.fci = cx.array('fci', (self.N,), 'u2')
        self.stale = cx.array('stale', (self.N,), 'bool')
        self.missing = cx.array('missing', (self.N,), 'bool')
        self.tack = cx.array('tack', (self.N,), 'i8', 0, 2 ** 60)
        self.sec = cx.array('sec', (self.N,), 'i8', 0, 2 ** 32 - 1)
        self.ns = cx.array('ns', (self.N,), 'i8', 0, 10 ** 9 - 1)
        self.sn = cx.array('sn', (self.M,), 'i8', 0, 200)
        self.dac = cx.array('dac', (self.M, self.SP), 'i8', 0, 255)
        self.opened = []
        f = self

        class WaveformArrayReader:
            def __init__(self, path, skip=2, skip_end=1):
                f.opened.append((path, skip, skip_end))
                self.fR1, self.fNEvents, self.fRunID, self.fNPixels = f.r1, f.N, 5, f.P
                self.fNSuperpixelsPerModule, self.fNModules, self.fNSamples = f.SP, f.M, f.S
                self.fCameraVersion = '1.1.0'

            def event(self, iev, samples):
                samples[:] = f.ev[iev]
                return f.fci[iev], f.stale[iev], f.missing[iev], f.tack[iev], f.sec[iev], f.ns[iev]

            def GetR1Event(self, iev, samples):
                assert f.r1
                return self.event(iev, samples)

            def GetR0Event(self, iev, samples):
                assert not f.r1
                return self.event(iev, samples)

            def GetSN(self, tm):
                return f.sn[tm]

            def GetSiPMTemp(self, tm):
                return f.sn[tm] + 1000

            def GetPrimaryTemp(self, tm):
                return f.sn[tm] + 2000

            def GetSPDAC(self, tm, sp):
                return f.dac[tm, sp]

            def GetSPHVON(self, tm, sp):
                return f.dac[tm, sp] + 1000
        cx.assume_contract('target_io.WaveformArrayReader and target_calib.CameraConfiguration (not installed) as modelled '
                           'in contracts/readers.py: GetR0Event/GetR1Event(i, samples) fill samples with event i')
        cx.stub_module('target_io', cx.module('target_io', WaveformArrayReader=WaveformArrayReader), purge=False)
        cx.stub_module('target_calib', cx.module('target_calib', CameraConfiguration=lambda v: Camera(cx, v)), purge=False)
        self.m = cx.load(TIO)
        self.path = cx.tmp('run.tio')
        cx.write_table(self.path, cx.np.zeros(3))

    def open(self, cx, **kw):
        cls = cx.choice('class', [self.m.TIOReader, self.m.ReaderR1 if self.r1 else self.m.ReaderR0])
        return cls(self.path, **kw)

    def check(self, cx, name, w, i, n_pix=None):
        """w is event i, with its tags."""
        cx.shape(name, w, (self.P, self.S))
        cx.all(name + ' samples', (self.P, self.S), lambda p, s: (w[p, s], self.ev[i, p, s]))
        self.tags(cx, name, w, i)

    def tags(self, cx, name, w, i):
        cx.eq(name + ' number', w.iev, i)
        cx.eq(name + ' first cell', w.first_cell_id, self.fci[i])
        cx.eq(name + ' stale', w.stale, self.stale[i])
        cx.eq(name + ' missing packets', w.missing_packets, self.missing[i])
        cx.eq(name + ' trigger time', w.t_tack, self.tack[i])
        cx.ensure(name + ' calibrated', w.is_r1 is self.r1)
        cx.eq(name + ' cpu time', cx.nanoseconds(w.t_cpu), self.sec[i] * 10 ** 9 + self.ns[i])


def limited(cx, f):
    """A reader with or without a maximum, and its number of events."""
    if cx.choice('max', [False, True]):
        mx = cx.int('max_events', 1, conc=(1, 9))
        return f.open(cx, max_events=mx), cx.min2(mx, f.N)
    return f.open(cx), f.N


@unit('C26', cost=3)
def indexing(cx):
    f = File(cx)
    r, n = limited(cx, f)
    cx.eq('length', cx.len(r), n)
    cx.eq('n_events', r.n_events, n)
    i = cx.int('i', conc=(-10, 10))
    if cx.decide(cx.and_(i >= 0 - n, i < n)):
        w = r[i]
        f.check(cx, 'event', w, cx.ite(i < 0, lambda: i + n, lambda: i))
    else:
        cx.must_raise('refused', lambda: r[i], IndexError)
    for bad in (1.0, 'a', None, (0, 1)):
        cx.must_raise('refused ' + repr(bad), lambda: r[bad], TypeError)


@unit('C26', cost=3)
def iteration(cx):
    f = File(cx)
    r, n = limited(cx, f)
    cx.seq('events', cx.list(r), n, lambda k, w: f.check(cx, 'event', w, k))
    cx.seq('iterating again', cx.list(r), n, lambda k, w: f.check(cx, 'event again', w, k))


@unit('C26', cost=3)
def slices(cx):
    f = File(cx)
    r, n = limited(cx, f)
    lo = cx.choice('lo?', [None, 'x'])
    lo = None if lo is None else cx.int('lo', conc=(-10, 10))
    hi = cx.choice('hi?', [None, 'x'])
    hi = None if hi is None else cx.int('hi', conc=(-10, 10))
    st = cx.choice('step', [None, 1, 2, -1])
    out = r[lo:hi:st]
    back = st == -1
    step = 1 if st is None else st
    norm = lambda v: cx.ite(v < 0, lambda: cx.max2(v + n, -1 if back else 0), lambda: cx.min2(v, n - 1 if back else n))
    a = (n - 1 if back else 0) if lo is None else norm(lo)
    b = (-1 if back else n) if hi is None else norm(hi)
    m = cx.max2(0, a - b) if back else cx.max2(0, cx.fdiv(b - a + step - 1, step))
    cx.eq('number of events', cx.len(out), m)
    if cx.decide(m > 0):
        cx.shape('events', out, (m, f.P, f.S))
        cx.all('events', (m, f.P, f.S), lambda k, p, s: (out[k, p, s], f.ev[a + k * step, p, s]))


@unit('C26', cost=3)
def lists(cx):
    f = File(cx, nmin=1)
    r, n = limited(cx, f)
    k = cx.choice('k', [1, 3])
    idx = [cx.int('i%d' % j, conc=(-9, 8)) for j in range(k)]
    for i in idx:
        cx.assume(cx.and_(i >= 0 - n, i < n))
    out = r[list(idx)]
    cx.shape('events', out, (k, f.P, f.S))
    for j, i in enumerate(idx):
        cx.all('event %d' % j, (f.P, f.S), lambda p, s: (
            out[j, p, s], f.ev[cx.ite(i < 0, lambda: i + n, lambda: i), p, s]))
    bad = cx.int('bad', conc=(-12, 12))
    cx.assume(cx.or_(bad < 0 - n, bad >= n))
    cx.must_raise('refused', lambda: r[[idx[0], bad]], IndexError)


@unit('C26', cost=3)
def tags(cx):
    """Views and arithmetic keep the tags of their event."""
    f = File(cx, nmin=1)
    r = f.open(cx)
    i = cx.int('i', 0, conc=(0, 8))
    cx.assume(i < f.N)
    w = r[i]
    how = cx.choice('how', ['row', 'slice', 'copy', 'sum', 'scaled', 'difference', 'astype', 'max', 'transposed'])
    v = dict(row=lambda: w[0], slice=lambda: w[:, :1], copy=lambda: w.copy(), sum=lambda: w + w, scaled=lambda: 2 * w,
             difference=lambda: w - w[:, :1], astype=lambda: w.astype('f8'), max=lambda: w.max(axis=1),
             transposed=lambda: w.T)[how]()
    f.tags(cx, how, v, i)
    other = r[0]
    f.tags(cx, how + ' after reading another event', v, i)
    f.tags(cx, 'the event', w, i)
    f.tags(cx, 'another', other, 0)


@unit('C26')
def modules(cx):
    f = File(cx)
    r = f.open(cx)
    tm = cx.int('tm', 0, conc=(0, 5))
    sp = cx.int('sp', 0, conc=(0, 5))
    ok = cx.decide(tm < f.M)
    for name, off in (('get_sn', 0), ('get_sipm_temp', 1000), ('get_primary_temp', 2000)):
        if ok:
            cx.eq(name, getattr(r, name)(tm), f.sn[tm] + off)
        else:
            cx.must_raise(name + ' refused', lambda: getattr(r, name)(tm), IndexError)
    ok = ok and cx.decide(sp < f.SP)
    for name, off in (('get_sp_dac', 0), ('get_sp_hvon', 1000)):
        if ok:
            cx.eq(name, getattr(r, name)(tm, sp), f.dac[tm, sp] + off)
        else:
            cx.must_raise(name + ' refused', lambda: getattr(r, name)(tm, sp), IndexError)


@unit('C26')
def opening(cx):
    """Only existing files of the right kind are opened."""
    f = File(cx)
    cx.must_raise('missing file', lambda: f.m.TIOReader(f.path + '.not'), FileNotFoundError)
    wrong = f.m.ReaderR0 if f.r1 else f.m.ReaderR1
    cx.must_raise('wrong level', lambda: wrong(f.path), IOError)
    skip, end = cx.int('skip', 0, conc=(0, 4)), cx.int('end', 0, conc=(0, 4))
    n = len(f.opened)
    r = f.m.TIOReader(f.path, None, skip, end)
    cx.ensure('opened once', len(f.opened) == n + 1 and f.opened[-1][0] == f.path)
    cx.eq('skip', f.opened[-1][1], skip)
    cx.eq('skip at the end', f.opened[-1][2], end)
    cx.eq('pixels', r.n_pixels, f.P)
    cx.eq('samples', r.n_samples, f.S)
    cx.eq('modules', r.n_modules, f.M)
    cx.eq('pixels per module', r.n_tmpix, f.tmpix)
    cx.ensure('level', r.is_r1 is f.r1 and r.is_mc is False)


SIM = 'CHECLabPy.core.io.simtel'


class Namespace:
    """An event of the file, as ctapipe gives it."""

    def __init__(self, **k):
        self.__dict__.update(k)


class Quantity:
    def __init__(self, value):
        self.value = value


# rows, columns, order of the pixels in the file and in the mapping
CAMERAS = [(2, 2, 3, 0), (2, 3, 1, 2), (3, 2, 0, 3), (1, 4, 2, 1)]


class Simulated:
    """The contents of a simtel file: the assumed contract of ctapipe."""

    QUANTITIES = ['energy', 'alt', 'az', 'core_x', 'core_y', 'h_first_int', 'x_max']
    HEADER = ['energy_range_min', 'energy_range_max', 'prod_site_B_total', 'prod_site_B_declination', 'prod_site_B_inclination',
              'prod_site_alt', 'max_alt', 'min_alt', 'max_az', 'min_az', 'max_viewcone_radius', 'min_viewcone_radius',
              'max_scatter_range', 'min_scatter_range', 'injection_height', 'corsika_wlen_min', 'corsika_wlen_max']
    PLAIN = ['corsika_version', 'simtel_version', 'spectral_index', 'shower_prog_start', 'shower_prog_id', 'detector_prog_start',
             'detector_prog_id', 'num_showers', 'shower_reuse', 'diffuse', 'core_pos_mode', 'atmosphere', 'corsika_iact_options',
             'corsika_low_E_model', 'corsika_high_E_model', 'corsika_bunchsize', 'corsika_low_E_detail', 'corsika_high_E_detail']
    POINTING = ['azimuth_raw', 'altitude_raw', 'azimuth_cor', 'altitude_cor']
    TEL = 7

    def __init__(self, cx):
        self.cx = cx
        self.N = cx.int('N', 1, conc=(1, 6))
        self.S = cx.int('S', 1, conc=(1, 5))
        # grid positions of the pixels in the file and in the mapping
        self.rows, self.cols, a, b = cx.choice('camera', CAMERAS if cx.symbolic else [
            c + (i, j) for c in ((2, 2), (2, 3), (3, 2), (1, 4)) for i in range(4) for j in range(4)])
        grid = [(i, j) for i in range(self.rows) for j in range(self.cols)]
        P = self.P = len(grid)
        orders = [list(range(P)), list(range(P))[::-1], list(range(1, P)) + [0], [1, 0] + list(range(2, P))]
        self.in_file = [grid[i] for i in orders[a]]
        self.in_map = [grid[i] for i in orders[b]]
        self.order = [self.in_file.index(g) for g in self.in_map]
        self.ev = cx.array('ev', (self.N, P, self.S), 'f4')
        self.true = cx.array('true', (self.N, P), 'i4', 0, 1000)
        self.count = cx.array('count', (self.N,), 'i8', 0, 10 ** 6)
        self.sec = cx.array('sec', (self.N,), 'i8', 0, 2 ** 31 - 1)
        self.values = cx.array('values', (self.N, 20), 'f8')
        self.obs = cx.int('obs', 0, 1000)
        self.header = {h: cx.real('header ' + h) for h in self.HEADER}
        self.plain = {h: cx.int('header ' + h) for h in self.PLAIN}
        self.sources = []
        f = self

        class Seeker:
            def __init__(self, source):
                self.source = source

            def __getitem__(self, i):
                return f.event(i)

            def __len__(self):
                return f.N

            def pv_iter(self):
                return self.stream.pv_iter()

            def __iter__(self):
                return iter(self.stream)

        def source(input_url=None, max_events=None, back_seekable=False):
            f.sources.append((input_url, max_events, back_seekable))
            return 'source'

        def seeker(s):
            r = Seeker(s)
            r.stream = cx.stream(f.N, f.event)
            return r
        cx.assume_contract('ctapipe (SimTelEventSource, EventSeeker, camera geometry), target_calib (CameraConfiguration) -- not installed '
                           '-- as modelled in contracts/readers.py; get_row_column gives the grid positions of the pixels (C30)')
        cx.stub_module('ctapipe', cx.module('ctapipe'), purge=False)
        cx.stub_module('ctapipe.io', cx.module('ctapipe.io', SimTelEventSource=source, EventSeeker=seeker), purge=False)
        cx.stub_module('ctapipe.coordinates', cx.module('ctapipe.coordinates', EngineeringCameraFrame=lambda **k: ('frame', k)), purge=False)
        cx.stub_module('target_calib', cx.module('target_calib', CameraConfiguration=lambda v: Camera(cx, v)), purge=False)
        self.m = cx.load(SIM)
        np = cx.np
        self.asked = []

        def mapping(tc):
            self.asked.append(tc)
            return cx.frame(dict(pixel=np.arange(P), row=np.array([g[0] for g in f.in_map]), col=np.array([g[1] for g in f.in_map])),
                            metadata=dict(n_rows=f.rows, n_columns=f.cols))
        cx.patch(self.m, 'get_clp_mapping_from_tc_mapping', mapping)
        cx.patch(self.m, 'get_row_column', lambda x, y: (np.array([g[0] for g in f.in_file]), np.array([g[1] for g in f.in_file])))
        self.path = cx.tmp('run.simtel.gz')
        cx.write_table(self.path, np.zeros(3))

    def event(self, i):
        T = self.TEL
        v = self.values
        mc = {q: Quantity(v[i, j]) for j, q in enumerate(self.QUANTITIES)}
        pt = {q: v[i, 10 + j] for j, q in enumerate(self.POINTING)}
        geom = Namespace(pix_x=Quantity('x'), pix_y=Quantity('y'))
        geom.transform_to = lambda frame: geom
        wave = self.ev[i]
        h = {k: Quantity(x) for k, x in self.header.items()}
        h.update(self.plain)
        return Namespace(
            count=self.count[i], trig=Namespace(gps_time=Quantity(self.sec[i])),
            r0=Namespace(tels_with_data=[T], obs_id=self.obs, tel={T: Namespace(waveform=Namespace(shape=(1, self.P, self.S)))}),
            r1=Namespace(tel={T: Namespace(waveform=wave)}),
            mc=Namespace(tel={T: Namespace(photo_electron_image=self.true[i], **pt)}, shower_primary_id=self.count[i] + 5, **mc),
            inst=Namespace(subarray=Namespace(tel={T: Namespace(camera=geom)})),
            mcheader=Namespace(**h))

    def waveform(self, name, w, i):
        cx = self.cx
        cx.shape(name, w, (self.P, self.S))
        for p in range(self.P):
            cx.all(name + ' samples', (self.S,), lambda s: (w[p, s], self.ev[i, self.order[p], s]))
            cx.eq(name + ' true charge', w.mc_true[p], self.true[i, self.order[p]])
        cx.shape(name + ' true charges', w.mc_true, (self.P,))
        cx.eq(name + ' number', w.iev, self.count[i])
        cx.ensure(name + ' calibrated', w.is_r1 is True)
        cx.eq(name + ' time', cx.nanoseconds(w.t_cpu), self.sec[i] * 10 ** 9)

    def check(self, name, w, mc, pointing, i):
        cx = self.cx
        self.waveform(name, w, i)
        cx.keys(name + ' simulation', mc, ['iev', 't_cpu', 'shower_primary_id'] + self.QUANTITIES)
        cx.keys(name + ' pointing', pointing, ['iev', 't_cpu'] + self.POINTING)
        for d in (mc, pointing):
            cx.eq(name + ' number in the tables', d['iev'], self.count[i])
            cx.eq(name + ' time in the tables', cx.nanoseconds(d['t_cpu']), self.sec[i] * 10 ** 9)
        for j, q in enumerate(self.QUANTITIES):
            cx.eq(name + ' ' + q, mc[q], self.values[i, j])
        cx.eq(name + ' primary', mc['shower_primary_id'], self.count[i] + 5)
        for j, q in enumerate(self.POINTING):
            cx.eq(name + ' ' + q, pointing[q], self.values[i, 10 + j])

    def check_header(self, h):
        cx = self.cx
        cx.keys('header', h, ['obs_id'] + self.HEADER + self.PLAIN)
        cx.eq('run number in the header', h['obs_id'], self.obs)
        for d in (self.header, self.plain):
            for k in d:
                cx.eq('header ' + k, h[k], d[k])


@unit('C26', bounded='cameras of 4 and 6 pixels in enumerated orders; any events, samples and values')
def simulated_event(cx):
    """An event of a simulated file, by its index: samples and true charges in
    the camera's pixel order, and the truth and pointing of that event."""
    f = Simulated(cx)
    most = cx.choice('max', [None, 5])
    r = f.m.SimtelReader(f.path, most)
    cx.ensure('one source', f.sources == [(f.path, most, True)])
    cx.eq('events', cx.len(r), f.N)
    cx.eq('pixels', r.n_pixels, f.P)
    cx.eq('samples', r.n_samples, f.S)
    cx.ensure('simulated', r.is_mc is True)
    i = cx.int('i', conc=(-7, 7))
    if cx.decide(cx.and_(i >= 0 - f.N, i < f.N)):
        r[0]
        w = r[i]
        f.check('event', w, r.mc, r.pointing, cx.ite(i < 0, lambda: i + f.N, lambda: i))
        cx.eq('run number', r.run_id, f.obs)
        f.check_header(r.mcheader)
        mc = r.mc
        r[0]
        cx.ensure('tables of an event are its own', r.mc is not mc)
    else:
        cx.must_raise('refused', lambda: r[i], IndexError)


@unit('C26', bounded='cameras of 4 and 6 pixels in enumerated orders; any events, samples and values; the truth and pointing '
                     'during the iteration: up to 6 events')
def simulated_events(cx):
    """Iterating over a simulated file gives every event once and in order,
    each with its own truth and pointing."""
    f = Simulated(cx)
    r = f.m.SimtelReader(f.path)
    if cx.symbolic or cx.choice('read before', [False, True]):
        r[0]    # the header is made with the first event that is read (simulated_event)
    if cx.symbolic:
        cx.seq('events', cx.list(r), f.N, lambda k, w: f.waveform('event', w, k))
    else:
        got = [(w, r.mc, r.pointing) for w in r]
        cx.seq('events', got, f.N, lambda k, x: f.check('event', x[0], x[1], x[2], k))
    f.check_header(r.mcheader)


@unit('C26')
def calibrated(cx):
    """The calibration of an event leaves the event as it is, gives the library
    the event's samples with the first cell it is called with for every pixel,
    and its result carries the event's tags."""
    f = File(cx, nmin=1)
    cx.assume(f.r1 is False)
    r = f.open(cx)
    made, seen = [], []

    class Calibrator:
        def __init__(self, *a):
            made.append(a)

        def ApplyEvent(self, w, fci, out):
            seen.append((w, fci))
            out[:] = cx.np.asarray(w).astype('f4') * 2
    cx.assume_contract('target_calib.Calibrator.ApplyEvent(samples, first cells, out) writes the calibrated samples to out')
    cx.stub_module('target_calib', cx.module('target_calib', CameraConfiguration=lambda v: Camera(cx, v), Calibrator=Calibrator,
                                             CalibratorMultiFile=Calibrator), purge=False)
    m = cx.load('CHECLabPy.calib.waveform')
    many = cx.choice('file per module', [False, True])
    if many:
        c = m.WaveformCalibrator.from_tio_reader('ped.tcal', r)
    else:
        c = m.WaveformCalibrator('ped.tcal', f.P, f.S)
    cx.eq('one calibrator', len(made), 1)
    cx.ensure('pedestal', made[0][0] == 'ped.tcal')
    cx.eq('arguments', len(made[0]), 2 if many else 1)
    if many:
        cx.seq('serial numbers', made[0][1], f.M, lambda t, sn: cx.eq('serial number', sn, f.sn[t]))
    more = cx.choice('later event', [False, True])
    first = one_calibrated(cx, f, r, c, seen, 'event')
    if more:
        one_calibrated(cx, f, r, c, seen, 'later event')
        calibrated_samples(cx, f, 'event, after the later one', *first)


def one_calibrated(cx, f, r, c, seen, name):
    del seen[:]
    i = cx.int('i of the ' + name, 0, conc=(0, 8))
    cx.assume(i < f.N)
    w = r[i]
    fci = cx.int('first cell of the ' + name, 0, 16383)
    out = c(w, fci)
    cx.eq(name + ': applied once', len(seen), 1)
    cx.all(name + ': its samples', (f.P, f.S), lambda p, s: (seen[0][0][p, s], f.ev[i, p, s]))
    cx.shape(name + ': first cells', seen[0][1], (f.P,))
    cx.all(name + ': first cells', (f.P,), lambda p: (seen[0][1][p], fci))
    f.check(cx, name, w, i)
    calibrated_samples(cx, f, name, out, i)
    return out, i


def calibrated_samples(cx, f, name, out, i):
    cx.shape(name + ': calibrated', out, (f.P, f.S))
    cx.all(name + ': calibrated samples', (f.P, f.S), lambda p, s: (out[p, s], 2 * f.ev[i, p, s]))
    cx.ensure(name + ': marked as calibrated', out.is_r1 is True)
    cx.eq(name + ': number', out.iev, i)
    cx.eq(name + ': first cell', out.first_cell_id, f.fci[i])
    cx.eq(name + ': time', cx.nanoseconds(out.t_cpu), f.sec[i] * 10 ** 9 + f.ns[i])
