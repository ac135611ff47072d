"""Contracts of the statistics functions (C16, C21)."""
from pydv.registry import unit


@unit('C16')
def welford_step(cx):
    """One step of the recurrence preserves: count n, mean S1/n and
    m2 = S2 - S1^2/n = sum of squared deviations (S1, S2: the sums of the
    samples so far and of their squares)."""
    m = cx.load('CHECLabPy.stats.welfords')
    n = cx.int('n', 0, conc=(0, 40))
    x = cx.array('x', (n + 1,), 'f8')
    if cx.symbolic:
        s1, s2 = cx.sum(n, lambda i: x[i]), cx.sum(n, lambda i: x[i] * x[i])
        if cx.decide(n == 0):
            mean, m2 = 0, 0
        else:
            mean = s1 / n
            m2 = s2 - s1 * s1 / n
        mean, count, m2 = m.welfords_online_algorithm(x[n], mean, n, m2)
        t1, t2 = s1 + x[n], s2 + x[n] * x[n]
        cx.eq('count', count, n + 1)
        cx.eq('mean', mean, t1 / (n + 1))
        cx.eq('m2', m2, t2 - t1 * t1 / (n + 1))
    else:
        mean, count, m2 = 0., 0, 0.
        for k in range(n + 1):
            mean, count, m2 = m.welfords_online_algorithm(x[k], mean, count, m2)
            v = x[:k + 1].astype('f8')
            cx.eq('count', count, k + 1)
            cx.eq('mean', mean, v.mean())
            cx.eq('m2', m2, ((v - v.mean()) ** 2).sum())


@unit('C16')
def sums_are_deviations(cx):
    """Lemma linking the invariant to the statement: sum (x-mean)^2 = S2 -
    S1^2/n, and the recurrence started from zero reaches n = 1."""
    n = cx.int('n', 1, conc=(1, 40))
    x = cx.array('x', (n,), 'f8')
    s1, s2 = cx.sum(n, lambda i: x[i]), cx.sum(n, lambda i: x[i] * x[i])
    mu = s1 / n
    cx.eq('deviations', cx.sum(n, lambda i: (x[i] - mu) * (x[i] - mu)), s2 - s1 * s1 / n)
    m = cx.load('CHECLabPy.stats.welfords')
    y = cx.real('y', conc=(-50, 50))
    mean, count, m2 = m.welfords_online_algorithm(y, 0, 0, 0)
    cx.eq('first count', count, 1)
    cx.eq('first mean', mean, y)
    cx.eq('first m2', m2, 0)


PDF = 'CHECLabPy.stats.pdf'


@unit('C21')
def binomial(cx):
    m = cx.load(PDF)
    n = cx.int('n', 0, conc=(0, 300))
    k = cx.int('k', 0, conc=(0, 60 if cx.symbolic else n))
    cx.assume(k <= n)
    lg = cx.lgamma
    cx.eq('binom', m.binom(n, k), cx.exp(lg(cx.real_of(n) + 1) - lg(cx.real_of(k) + 1) - lg(cx.real_of(n - k) + 1)))


@unit('C21')
def poisson(cx):
    m = cx.load(PDF)
    k = cx.int('k', 0, conc=(0, 400))
    mu = cx.real('mu', gt=0, conc=(0.01, 40) if cx.symbolic or k < 40 else (.6 * k, 1.4 * k))
    cx.eq('poisson', m.poisson(k, mu), cx.exp(k * cx.log(mu) - mu - cx.lgamma(cx.real_of(k) + 1)))


@unit('C21')
def gaussian(cx):
    m = cx.load(PDF)
    x, mean = cx.array('x', (1,), 'f4', -20, 20)[0], cx.real('mean', conc=(-5, 5))
    sd = cx.real('sd', gt=0, conc=(0.05, 10))
    u = (x - mean) / sd
    cx.eq('normal', m.normal_pdf(x, mean, sd), cx.exp(-u * u / 2) / (cx.sqrt(2 * cx.pi) * sd))


@unit('C21')
def log_poisson(cx):
    m = cx.load(PDF)
    k = cx.array('k', (1,), 'f4', 0, 300)[0]
    mu = cx.real('mu', 0, conc=(0, 300))
    cx.assume(cx.or_(k == 0, mu > 0))
    xl = cx.ite(k == 0, lambda: 0, lambda: k * cx.log(mu))
    cx.eq('xlogy', m.xlogy(k, mu), xl)
    cx.eq('poisson_logpmf', m.poisson_logpmf(k, mu), xl - mu - cx.lgamma(k + 1))


@unit('C21')
def xlogy_of_nan(cx):
    """x log(y) is 0 for x = 0 only when y is a number."""
    m = cx.load(PDF)
    nan = cx.np.nan
    cx.ensure('0 log(nan)', cx.isnan(m.xlogy(cx.np.float32(0), nan)))
    x = cx.array('x', (1,), 'f4', 0.1, 60)[0]
    cx.ensure('x log(nan)', cx.isnan(m.xlogy(x, nan)))
    y = cx.real('y', conc=(-40, 40))
    cx.eq('0 log(y)', m.xlogy(cx.np.float32(0), y), 0)
    cx.eq('0 log(0)', m.xlogy(cx.np.float32(0), 0), 0)


@unit('C21')
def elementwise(cx):
    m = cx.load(PDF)
    n = cx.int('n', 1, conc=(1, 12))
    x = cx.array('x', (n,), 'f4')
    kf = cx.array('kf', (n,), 'f4', 1, 50)
    ki = cx.array('ki', (n,), 'i8', 0, 30)
    kn = cx.array('kn', (n,), 'i8', 30, 60)
    mu = cx.array('mu', (n,), 'f8', 0.1, 30)
    sd = cx.real('sd', gt=0, conc=(0.05, 10))
    for name, out, f in [
            ('binom', m.binom(kn, ki), lambda i: m.binom(kn[i], ki[i])),
            ('poisson', m.poisson(ki, mu), lambda i: m.poisson(ki[i], mu[i])),
            ('normal', m.normal_pdf(x, mu, sd), lambda i: m.normal_pdf(x[i], mu[i], sd)),
            ('normal of one mean', m.normal_pdf(x, mu[0], sd), lambda i: m.normal_pdf(x[i], mu[0], sd)),
            ('xlogy', m.xlogy(kf, mu), lambda i: m.xlogy(kf[i], mu[i])),
            ('logpmf', m.poisson_logpmf(kf, mu), lambda i: m.poisson_logpmf(kf[i], mu[i]))]:
        cx.shape(name, out, (n,))
        cx.all(name, (n,), lambda i: (out[i], f(i)))
