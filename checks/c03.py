"""C03: distributions obey their laws."""
import math
import numpy as np
from rtm.dists import LAWS, ks_stat, ks_critical, hoeffding, exchangeable
from rtm.bnlib import draw_value
from rtm.gen import LAWNAMES, plain_params, wide_params, call_src
from sims_pars import parse_distribution

ID = 'C03'
RULE = ('random laws with random valid parameters, evaluated at random points and at the edges, and sampled; distinct by '
        'source text')
ASSUMPTIONS = ['lnorm(m, s) is the law of X with log X ~ N(exp(m), sd exp(s)), invgamma(a, r) has scale 1/r: the '
               "repository's tests pin these parameterisations",
               'sampling is judged by Kolmogorov-Smirnov/DKW bounds with error probability below 1e-10 per case']


def make(ctx):
    r = ctx.rng
    law = r.choice(LAWNAMES)
    src, eff = call_src(r, law, (plain_params if r.random() < .4 else wide_params)(r, law))
    pv = {k: e.ev({}) for k, e in eff.items()}
    ctx.describe(source=src)
    ctx.nontrivial(src)
    return law, LAWS[law], [pv[p] for p, _ in LAWS[law].params], pv, parse_distribution(src), src


def analytic(ctx):
    r = ctx.rng
    law, L, ps, pv, d, src = make(ctx)
    ctx.close(d.mean(), L.mean(*ps), 'mean', tol=1e-6, source=src)
    ctx.close(d.std(), L.std(*ps), 'standard deviation', tol=1e-6, source=src)
    lo, hi = L.support(*ps)
    for a, b, w in ((d.Lower, lo, 'lower'), (d.Upper, hi, 'upper'), (d.Interval[0], lo, 'lower'), (d.Interval[1], hi, 'upper')):
        ctx.close(a, b, w + ' end of the support', source=src)
    ctx.expect(d.Type == ('Integer' if L.integer else 'Double'), 'type', source=src, got=d.Type)
    pts = [draw_value(r, law, pv) for _ in range(6)]
    pts += [L.mean(*ps) if not L.integer else round(L.mean(*ps))]
    for v in pts:
        ctx.close(d.logpdf(v), L.logp(v, *ps), 'log density inside the support', tol=1e-6, source=src, value=v)
    out = []
    if lo > -math.inf:
        out += [lo - 1e-3 if not L.integer else lo - 1, lo - r.uniform(1, 50) if not L.integer else lo - r.randint(1, 50)]
    if hi < math.inf:
        out += [hi + 1e-3 if not L.integer else hi + 1, hi + r.uniform(1, 50) if not L.integer else hi + r.randint(1, 50)]
    for v in out:
        ctx.expect(d.logpdf(v) == -math.inf, 'log density outside the support is not -inf', source=src, value=v,
                   got=d.logpdf(v))
    if L.integer:
        ctx.expect(d.logpdf(pts[0] + 0.5) == -math.inf, 'an integer law accepts a fraction', source=src)
        top = int(ps[0]) if law == 'binom' else 400
        ctx.close(sum(math.exp(d.logpdf(v)) for v in range(top + 1)), 1, 'total probability', tol=1e-6, source=src)


def sampling(ctx):
    r = ctx.rng
    law, L, ps, pv, d, src = make(ctx)
    n = 600
    xs = d.sample(n)
    ctx.expect(len(xs) == n, 'number of draws', source=src, got=len(xs))
    if ctx.index % 5 == 0:                    # many at once
        big = r.choice([2500, 5000, 10000])
        zs = d.sample(big)
        ctx.expect(len(zs) == big, 'number of draws of a large batch', source=src, got=len(zs))
        if L.integer:
            q = sum(x <= L.mean(*ps) for x in xs) / n
            g = sum(x <= L.mean(*ps) for x in zs) / big
            ctx.expect(abs(q - g) < hoeffding(n) + hoeffding(big), 'a large batch does not follow the law', source=src)
        else:
            us = [L.cdf(x, *ps) for x in zs]
            ctx.expect(ks_stat(us, lambda u: u) < ks_critical(big), 'a large batch does not follow the law', source=src)
            exchangeable(ctx, us, 'a large batch', source=src)
            # no draw is the image of another: neither repeated nor mirrored
            ctx.expect(len(set(zs)) > big * .6, 'draws of a large batch repeat', source=src)
            if len(set(zs)) > big * .98:      # (not where numbers are too coarse)
                vs = sorted(abs(u - .5) for u in us)
                near = sum(b - a < 1e-12 for a, b in zip(vs, vs[1:]))
                ctx.expect(near < big * .2, 'draws of a large batch are mirrored', source=src, pairs=near)
        ctx.count('large batches')
    one = [d.sample(), d(), d.sample(1)]
    lo, hi = L.support(*ps)
    for x in list(xs) + one:
        ctx.expect(np.ndim(x) == 0, 'a single draw is not a number', source=src, got=x)
        ctx.expect(lo <= x <= hi, 'a draw is outside the support', source=src, got=x)
        if L.integer:
            ctx.expect(x == int(x), 'a draw of an integer law is a fraction', source=src, got=x)
    if L.integer:
        xs = [int(x) for x in xs]
        acc, dev = 0.0, 0.0
        for v in range(0, max(xs) + 2):
            acc += math.exp(L.logp(v, *ps)) if L.logp(v, *ps) > -math.inf else 0
            dev = max(dev, abs(acc - sum(x <= v for x in xs) / n))
    else:
        dev = ks_stat(xs, lambda x: L.cdf(x, *ps))
        exchangeable(ctx, [L.cdf(x, *ps) for x in xs], 'a batch of draws', source=src)
    ctx.expect(dev < ks_critical(n), 'draws do not follow the law', source=src, deviation=dev, bound=ks_critical(n))
    for m in (r.randint(2, 3), r.randint(4, 40)):
        ctx.expect(len(d.sample(m)) == m and len(d.sample(n=m)) == m, 'number of draws', source=src, asked=m)
    # single draws follow the same law
    m = 150
    ys = [d.sample() for _ in range(m)]
    if not L.integer:
        dev = ks_stat(ys, lambda x: L.cdf(x, *ps))
        ctx.expect(dev < ks_critical(m), 'single draws do not follow the law', source=src, deviation=dev)
        ctx.expect(len(set(ys)) > m * .5, 'single draws repeat', source=src)
        exchangeable(ctx, [L.cdf(x, *ps) for x in ys], 'single draws', source=src)
        k = r.choice([2, 2, 3, 5])
        bs = [[L.cdf(x, *ps) for x in d.sample(k)] for _ in range(300)]
        exchangeable(ctx, [u for b in bs for u in b[:2]], 'small batches', source=src, size=k)
    else:
        med = L.mean(*ps)
        k = r.choice([2, 2, 3])
        bs = [d.sample(k)[:2] for _ in range(300)]
        q = sum(x <= med for x in xs) / n
        same = sum((a <= med) == (b <= med) for a, b in bs) / 300
        ctx.expect(abs(same - (q * q + (1 - q) ** 2)) < hoeffding(300) + 2 * ks_critical(n), 'draws of a small batch depend on each other',
                   source=src, size=k, got=same)
        ctx.expect(abs(sum(a < b for a, b in bs) - sum(a > b for a, b in bs)) / 300 < 2 * hoeffding(300), 'a small batch is ordered', source=src)
        a = sum(x < y for x, y in zip(xs[::2], xs[1::2])) - sum(x > y for x, y in zip(xs[::2], xs[1::2]))
        ctx.expect(abs(a) / (n // 2) < 2 * hoeffding(n // 2), 'a batch is ordered', source=src, got=a)


def counts(ctx):
    """laws of counts with large values"""
    r = ctx.rng
    big = r.choice([2 ** 15, 2 ** 16, 2 ** 24, 2 ** 31, 10 ** 11, 10 ** 5, 10 ** 12])
    big = int(big * r.uniform(.8, 4))
    if r.random() < .5:
        p = round(r.uniform(.05, .95), 3)
        src, m, s, hi = 'binom(size=%d, prob=%r)' % (big, p), big * p, math.sqrt(big * p * (1 - p)), big
        L, ps = LAWS['binom'], (big, p)
    else:
        src, m, s, hi = 'pois(lam=%d)' % big, big, math.sqrt(big), math.inf
        L, ps = LAWS['pois'], (big,)
    d = parse_distribution(src)
    ctx.describe(source=src)
    ctx.nontrivial(src)
    ctx.close(d.mean(), m, 'mean', source=src)
    ctx.close(d.std(), s, 'standard deviation', source=src)
    xs = [d.sample(), d(), d.sample(1)] + list(d.sample(20)) + list(d.sample(n=3))
    for x in xs:
        ctx.expect(0 <= x <= hi and x == int(x), 'a draw of a large count is outside the support', source=src, got=x)
        ctx.expect(abs(x - m) < 9 * s + 9, 'a draw of a large count is far from its mean', source=src, got=x, mean=m, std=s)
    for v in (round(m), round(m + s), round(m - 2 * s)):
        ctx.close(d.logpdf(v), L.logp(v, *ps), 'log density of a large count', tol=max(1e-5, 1e-14 * big), source=src, value=v)
    ctx.expect(d.logpdf(-1) == -math.inf and d.logpdf(-2 ** 40) == -math.inf, 'a negative count is possible', source=src)
    if hi < math.inf:
        ctx.expect(d.logpdf(hi + 1) == -math.inf and d.logpdf(hi * 4) == -math.inf, 'a count beyond the size is possible', source=src)


def approximable(ctx):
    """parameters at which one law is close to another: each keeps its own densities, also in its tails"""
    r = ctx.rng
    law = r.choice(['binom', 'pois', 'gamma', 'chisq', 'beta', 'binom'])
    if law == 'binom':
        n = int(10 ** r.uniform(1.5, 5))
        p = r.choice([r.uniform(.3, 30) / n, 1 - r.uniform(.3, 30) / n, r.uniform(.1, .9)])
        ps = (n, p)
    elif law == 'beta':
        ps = (10 ** r.uniform(1, 4.5), 10 ** r.uniform(1, 4.5))
    elif law == 'gamma':
        ps = (10 ** r.uniform(1, 4.5), 10 ** r.uniform(-2, 2))
    else:
        ps = (10 ** r.uniform(1, 4.5),)
    src = '%s(%s)' % (law, ', '.join(map(repr, ps)))
    ctx.describe(source=src)
    ctx.nontrivial(src)
    L = LAWS[law]
    d = parse_distribution(src)
    m, s = L.mean(*ps), L.std(*ps)
    ctx.close(d.mean(), m, 'mean', source=src)
    ctx.close(d.std(), s, 'standard deviation', source=src)
    lo, hi = L.support(*ps)
    for z in (0, 1, -1, 2, -2, 4, -4, 6, -6, 9):
        v = m + z * s
        v = round(v) if L.integer else v
        if lo < v < hi:
            ctx.close(d.logpdf(v), L.logp(v, *ps), 'log density near or in the tails', tol=1e-5, source=src, value=v)
    xs = list(d.sample(300))
    for x in xs:
        ctx.expect(lo <= x <= hi and (not L.integer or x == int(x)), 'a draw is outside the support', source=src, got=x)
    if not L.integer:
        dev = ks_stat(xs, lambda x: L.cdf(x, *ps))
        ctx.expect(dev < ks_critical(300), 'draws do not follow the law', source=src, deviation=dev)
    else:
        ctx.expect(abs(np.mean(xs) - m) < 7 * s / math.sqrt(300) + 15 / 300, 'mean of the draws', source=src, got=np.mean(xs), expected=m)


def constants(ctx):
    r = ctx.rng
    k = r.choice([r.randint(-5, 5), round(r.uniform(-5, 5), 3), r.choice([1000, 1e6, 1e-6, 12345.678])])
    src = r.choice(['k(%r)', 'k(k=%r)']) % k
    d = parse_distribution(src)
    ctx.describe(source=src)
    ctx.nontrivial(src)
    n = r.randint(2, 5)
    ctx.expect(d.sample() == k and d() == k and list(d.sample(n)) == [k] * n, 'draws of a constant', source=src)
    ctx.expect(d.mean() == k and d.std() == 0 and d.Lower == k and d.Upper == k and tuple(d.Interval) == (k, k),
               'moments of a constant', source=src)
    ctx.expect(d.logpdf(k) == 0 and d.logpdf(k + 1) == -math.inf and d.logpdf(k - .5) == -math.inf,
               'log density of a constant', source=src, got=(d.logpdf(k), d.logpdf(k + 1)))
    for v in (k * (1 + 1e-6) + 1e-12, k * (1 - 1e-9) - 1e-14, np.nextafter(k, math.inf), np.nextafter(k, -math.inf), float(k) + 1e-7):
        if v != k:
            ctx.expect(d.logpdf(float(v)) == -math.inf, 'a constant gives mass to a value beside it', source=src, value=float(v))


def categories(ctx):
    r = ctx.rng
    cats = r.sample(['M', 'O', 'Y', 'aa', 'b_1', 'Z'], r.randint(2, 5))
    w = {c: r.choice([r.randint(1, 9), round(r.uniform(.05, 1), 3), 0.25]) for c in cats}
    if r.random() < .3:
        w[r.choice(cats[1:])] = 0            # a category that never happens
    tot = sum(w.values())
    p = {c: v / tot for c, v in w.items()}
    arg = '{%s}' % ', '.join('"%s": %r' % (c, v) for c, v in w.items())
    if r.random() < .4:
        c0 = cats[0]
        arg = arg.replace('"%s": %r' % (c0, w[c0]), '"%s": kk' % c0)
    src = 'cat(%s%s)' % (r.choice(['', 'kv=']), arg)
    ctx.describe(source=src)
    ctx.nontrivial(src)
    d = parse_distribution(src, loc={'kk': w[cats[0]]})
    n = 500
    xs = list(d.sample(n))
    ctx.expect(len(xs) == n and set(xs) <= set(cats), 'draws of a categorical law', source=src, got=set(xs))
    ctx.expect(d.sample() in cats and d() in cats, 'a single draw of a categorical law', source=src)
    for c in cats:
        ctx.expect(abs(xs.count(c) / n - p[c]) < hoeffding(n), 'frequency of a category', source=src, category=c,
                   got=xs.count(c) / n, expected=p[c])
        ctx.expect(p[c] > 0 or c not in xs, 'a draw of an impossible category', source=src, category=c)
        ctx.close(d.logpdf(c), math.log(p[c]) if p[c] else -math.inf, 'log probability of a category', source=src, category=c)
    k = r.choice([2, 2, 3])
    bs = [list(d.sample(k))[:2] for _ in range(300)]
    for got, what in ((sum(a == b for a, b in bs) / 300, 'small batch'), (sum(a == b for a, b in zip(xs[::2], xs[1::2])) / 250, 'batch')):
        ctx.expect(abs(got - sum(q * q for q in p.values())) < hoeffding(250), 'draws of one %s depend on each other' % what, source=src, got=got)
    cnt = {c: r.randint(0, 4) if p[c] else 0 for c in cats}
    ctx.close(d.logpdf(cnt), sum(x * math.log(p[c]) for c, x in cnt.items() if x), 'log probability of counts', source=src)
    for c in cats:
        if not p[c]:
            ctx.expect(d.logpdf(dict(cnt, **{c: 1})) == -math.inf, 'counts of an impossible category', source=src)


WORKLOADS = [('analytic', analytic, 1200, 30000), ('sampling', sampling, 250, 6000), ('counts', counts, 80, 2000), ('approximable', approximable, 150, 4000), ('constants', constants, 100, 1500),
             ('categories', categories, 160, 3000)]
FLOOR = {'analytic': 300, 'sampling': 80, 'counts': 25, 'approximable': 40, 'constants': 30, 'categories': 40}
