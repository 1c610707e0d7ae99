"""Reference laws, written from the textbook formulas (not from scipy.stats)."""
import math
from math import lgamma, log, exp, sqrt, pi, inf

import scipy.special as sc


def xlogy(x, y):
    return 0.0 if x == 0 else (x * log(y) if y > 0 else -inf)


class Law:
    """name, declared parameters (order, default), law"""
    def __init__(self, name, params, logp, mean, std, support, integer=False, cdf=None):
        self.name, self.params, self.logp, self.mean, self.std = name, params, logp, mean, std
        self.support, self.integer, self.cdf = support, integer, cdf


def _beta_logp(v, a, b):
    if v < 0 or v > 1:
        return -inf
    # v in {0, 1} is avoided by the generators unless the density is finite there
    return lgamma(a + b) - lgamma(a) - lgamma(b) + _x1logy(a, v) + _x1logy(b, 1 - v)


def _x1logy(a, v):
    # (a-1) log v with 0*log 0 = 0
    if a == 1:
        return 0.0
    if v == 0:
        return -inf if a > 1 else inf
    return (a - 1) * log(v)


def _gamma_logp(v, a, r):
    if v < 0:
        return -inf
    return a * log(r) - lgamma(a) + _x1logy(a, v) - r * v


def _tri(a, m, b):
    return sorted([a, m, b])


def _tri_logp(v, *p):
    a, m, b = _tri(*p)
    if v < a or v > b:
        return -inf
    if v < m:
        d = 2 * (v - a) / ((b - a) * (m - a))
    elif v > m:
        d = 2 * (b - v) / ((b - a) * (b - m))
    else:
        d = 2 / (b - a)
    return log(d) if d > 0 else -inf


def _tri_cdf(v, *p):
    a, m, b = _tri(*p)
    if v <= a:
        return 0.0
    if v >= b:
        return 1.0
    if v <= m:
        return (v - a) ** 2 / ((b - a) * (m - a)) if m > a else 0.0
    return 1 - (b - v) ** 2 / ((b - a) * (b - m))


def _lnorm_logp(v, m, s):
    if v <= 0:
        return -inf
    mu, sd = exp(m), exp(s)
    return -log(v) - log(sd) - 0.5 * log(2 * pi) - (log(v) - mu) ** 2 / (2 * sd * sd)


def _binom_logp(v, n, p):
    if v < 0 or v > n or v != int(v):
        return -inf
    return lgamma(n + 1) - lgamma(v + 1) - lgamma(n - v + 1) + xlogy(v, p) + xlogy(n - v, 1 - p)


def _pois_logp(v, lam):
    if v < 0 or v != int(v):
        return -inf
    return v * log(lam) - lam - lgamma(v + 1)


def _invg_logp(v, a, r):
    # 1 / Gamma(a, rate=1/scale) with scale = 1/rate
    if v <= 0:
        return -inf
    s = 1 / r
    return a * log(s) - lgamma(a) - (a + 1) * log(v) - s / v


LAWS = {l.name: l for l in [
    Law('k', [('k', 0.0)], lambda v, k: 0.0 if v == k else -inf, lambda k: k, lambda k: 0.0, lambda k: (k, k)),
    Law('gamma', [('shape', 1.0), ('rate', 1.0)], _gamma_logp, lambda a, r: a / r, lambda a, r: sqrt(a) / r,
        lambda a, r: (0, inf), cdf=lambda v, a, r: sc.gammainc(a, r * v) if v > 0 else 0.0),
    Law('exp', [('rate', 1.0)], lambda v, r: log(r) - r * v if v >= 0 else -inf, lambda r: 1 / r, lambda r: 1 / r,
        lambda r: (0, inf), cdf=lambda v, r: 1 - exp(-r * v) if v > 0 else 0.0),
    Law('lnorm', [('meanlog', 0), ('sdlog', 1)], _lnorm_logp,
        lambda m, s: exp(exp(m) + exp(2 * s) / 2),
        lambda m, s: sqrt(math.expm1(exp(2 * s)) * exp(2 * exp(m) + exp(2 * s))),
        lambda m, s: (0, inf), cdf=lambda v, m, s: sc.ndtr((log(v) - exp(m)) / exp(s)) if v > 0 else 0.0),
    Law('unif', [('min', 0.0), ('max', 1.0)], lambda v, a, b: -log(b - a) if a <= v <= b else -inf,
        lambda a, b: (a + b) / 2, lambda a, b: (b - a) / sqrt(12), lambda a, b: (a, b),
        cdf=lambda v, a, b: min(1.0, max(0.0, (v - a) / (b - a)))),
    Law('chisq', [('df', 1.0)], lambda v, k: _gamma_logp(v, k / 2, 0.5), lambda k: k, lambda k: sqrt(2 * k),
        lambda k: (0, inf), cdf=lambda v, k: sc.gammainc(k / 2, v / 2) if v > 0 else 0.0),
    Law('beta', [('shape1', 1.0), ('shape2', 1.0)], _beta_logp, lambda a, b: a / (a + b),
        lambda a, b: sqrt(a * b / (a + b + 1)) / (a + b), lambda a, b: (0, 1),
        cdf=lambda v, a, b: sc.betainc(a, b, min(1.0, max(0.0, v)))),
    Law('invgamma', [('a', 2.0), ('rate', 1.0)], _invg_logp, lambda a, r: (1 / r) / (a - 1),
        lambda a, r: (1 / r) / ((a - 1) * sqrt(a - 2)), lambda a, r: (0, inf),
        cdf=lambda v, a, r: sc.gammaincc(a, (1 / r) / v) if v > 0 else 0.0),
    Law('norm', [('mean', 0.0), ('sd', 1.0)],
        lambda v, m, s: -log(s) - 0.5 * log(2 * pi) - (v - m) ** 2 / (2 * s * s), lambda m, s: m, lambda m, s: s,
        lambda m, s: (-inf, inf), cdf=lambda v, m, s: sc.ndtr((v - m) / s)),
    Law('triangle', [('a', 0.0), ('m', 0.5), ('b', 1.0)], _tri_logp, lambda a, m, b: (a + m + b) / 3,
        lambda a, m, b: sqrt((a * a + m * m + b * b - a * m - a * b - m * b) / 18), lambda a, m, b: (min(a, m, b), max(a, m, b)),
        cdf=_tri_cdf),
    Law('binom', [('size', 1), ('prob', 0.5)], _binom_logp, lambda n, p: n * p, lambda n, p: sqrt(n * p * (1 - p)),
        lambda n, p: (0, n), integer=True),
    Law('pois', [('lam', 1)], _pois_logp, lambda l: l, lambda l: sqrt(l), lambda l: (0, inf), integer=True),
]}


def ks_stat(xs, cdf):
    xs = sorted(xs)
    n = len(xs)
    d = 0.0
    for i, x in enumerate(xs):
        f = cdf(x)
        d = max(d, abs(f - i / n), abs((i + 1) / n - f))
    return d


def ks_critical(n, p=1e-10):
    return sqrt(-log(p / 2) / (2 * n)) + 1e-9


def hoeffding(n, p=1e-10):
    """deviation of a mean of n values in [0, 1] exceeded with probability < p"""
    return sqrt(-log(p / 2) / (2 * n))


def exchangeable(ctx, us, what, **witness):
    """us: one batch of draws pushed through their own (continuous) distribution function.
    Independent uniform numbers: no order, no repeats, no complements, and not evener than chance."""
    n = len(us)
    h = n // 2
    for name, pairs in (('neighbouring', list(zip(us[::2], us[1::2]))), ('distant', list(zip(us[:h], us[h:]))),
                        ('mirrored', [(us[i], us[n - 1 - i]) for i in range(h)])):
        m = len(pairs)
        for stat, p, got in (('in order', .5, sum(a < b for a, b in pairs) / m),
                             ('alike', .0975, sum(abs(a - b) < .05 for a, b in pairs) / m),
                             ('complementary', .0975, sum(abs(a + b - 1) < .05 for a, b in pairs) / m),
                             ('in the same half', .5, sum((a < .5) == (b < .5) for a, b in pairs) / m)):
            ctx.expect(abs(got - p) < hoeffding(m), '%s: %s draws are %s too often or too seldom' % (what, name, stat), got=got,
                       expected=p, pairs=m, **witness)
    if n >= 50:
        d = ks_stat(us, lambda u: u)
        ctx.expect(d * sqrt(n) > .2, '%s: draws evener than chance' % what, deviation=d, n=n, **witness)
