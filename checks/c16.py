"""C16: regressions and hazards."""
import math
import numpy as np
from rtm.dists import LAWS, ks_stat, ks_critical, hoeffding, exchangeable
from sims_pars.data import (LinearCombination, LinearRegression, LogisticRegression, PoissonRegression,
                            MultinomialLogisticRegression, CoxRegression, ZeroInflatedCoxRegression, ExponentialHazard,
                            WeibullHazard, EmpiricalHazard, HazardDistribution, ZeroInflatedHazardDistribution)

ID = 'C16'
RULE = 'random regressors, coefficients, baselines and covariates; distinct by model and covariates; all are non-trivial'


def regressors(r, small=False):
    js, xs, lp = [], {'unrelated': 4}, 0.0
    n = r.randint(1, 4) if r.random() < .93 else r.randint(13, 24)
    for i in range(n):
        nm = 'x%d' % i
        t = r.choice(['Boolean', 'Continuous', 'Categorical'])
        c = round((r.uniform(-.6, .6) if small else r.uniform(-2, 2)) * (1 if n < 9 else .2), 3)
        if t == 'Boolean':
            xs[nm] = r.choice([True, False, 0, 1])
            js.append({'Name': nm, 'Type': t, 'Value': c})
            lp += c if xs[nm] else 0
        elif t == 'Continuous':
            xs[nm] = round(r.uniform(-2, 2), 3)
            js.append({'Name': nm, 'Type': t, 'Value': c})
            lp += c * xs[nm]
        else:
            k = r.randint(2, 4)
            cs = [r.choice([0, 0, .25 if n < 9 else .05])] + [round(r.uniform(-.6, .6) * (1 if n < 9 else .2), 3) for _ in range(k - 1)]
            c0 = cs[0]
            r.shuffle(cs)
            xs[nm] = r.randrange(k)
            js.append({'Name': nm, 'Type': t, 'Values': cs, 'Labels': ['l%d' % q for q in range(k)], 'Ref': 'l%d' % cs.index(c0)})
            lp += cs[xs[nm]]
    return js, xs, lp


def linear(ctx):
    r = ctx.rng
    js, xs, lp = regressors(r)
    c0 = round(r.uniform(-2, 2), 3)
    lc = LinearCombination(js)
    ctx.describe(regressors=js, xs=xs)
    ctx.nontrivial((js, xs))
    if r.random() < .4:                       # a covariate with two terms
        g = r.choice(js)
        c = round(r.uniform(-1, 1), 3)
        js.append({'Name': g['Name'], 'Type': r.choice(['Boolean', 'Continuous']), 'Value': c})
        lp += c * xs[g['Name']] if js[-1]['Type'] == 'Continuous' else c if xs[g['Name']] else 0
        lc = LinearCombination(js)
        ctx.count('two terms for a covariate')
    before = dict(xs)
    ctx.close(lc.predict(xs), lp, 'linear combination', regressors=js, xs=xs)
    js2 = [dict(g) for g in js]               # another one over the same covariates
    for g in js2:
        if g['Type'] == 'Categorical':
            g['Values'] = [v + 1 for v in g['Values']]
        else:
            g['Value'] = g['Value'] + 1
    lc2 = LinearCombination(js2)
    shift = sum(1 if g['Type'] == 'Categorical' else (xs[g['Name']] if g['Type'] == 'Continuous' else bool(xs[g['Name']])) for g in js)
    ctx.close(lc2.predict(xs), lp + shift, 'another linear combination of the same covariates', regressors=js2, xs=xs)
    ctx.close(lc.predict(xs), lp, 'linear combination after another one', regressors=js, xs=xs)
    ctx.expect(lc.list_regressors() == [j['Name'] for j in js], 'names of the regressors')
    again = LinearCombination([g.to_json() for g in lc.Regressors])
    ctx.close(again.predict(xs), lp, 'linear combination through JSON', regressors=js, xs=xs)
    mu = lp + c0
    se = round(r.uniform(.1, 2), 3)
    m = LinearRegression({'Intercept': c0, 'SE': se, 'Regressors': js})
    ctx.close(m.expectation(xs), mu, 'expectation of a linear regression')
    s = m.get_sampler(xs)
    ctx.close(s.mean(), mu, 'mean of the sampler of a linear regression')
    ctx.close(s.std(), se, 'spread of the sampler of a linear regression')
    ys = list(m.predict(xs, 100)) + [m.predict(xs)]
    ctx.expect(ks_stat(ys, lambda x: LAWS['norm'].cdf(x, mu, se)) < ks_critical(len(ys)), 'predictions of a linear regression')
    m = LogisticRegression({'Intercept': c0, 'Regressors': js})
    p = 1 / (1 + math.exp(-mu))
    ctx.close(m.expectation(xs), p, 'expectation of a logistic regression')
    ctx.close(m.get_sampler(xs).logpdf(1), math.log(p), 'sampler of a logistic regression')
    ctx.close(m.get_sampler(xs).mean(), p, 'sampler of a logistic regression')
    ys = [int(m.predict(xs)) for _ in range(80)]
    ctx.expect(set(ys) <= {0, 1} and abs(sum(ys) / 80 - p) < hoeffding(80), 'predictions of a logistic regression', p=p, got=sum(ys))
    m = PoissonRegression({'Intercept': c0, 'Regressors': js})
    lam = math.exp(mu)
    ctx.close(m.expectation(xs), lam, 'expectation of a Poisson regression')
    ctx.close(m.get_sampler(xs).mean(), lam, 'sampler of a Poisson regression')
    if lam < 50:
        ys = [int(m.predict(xs)) for _ in range(100)]
        acc = dev = 0.0
        for v in range(max(ys) + 2):
            acc += math.exp(LAWS['pois'].logp(v, lam))
            dev = max(dev, abs(acc - sum(y <= v for y in ys) / 100))
        ctx.expect(dev < ks_critical(100), 'predictions of a Poisson regression', lam=lam, deviation=dev)
    for c0 in (800.0, -800.0, r.uniform(20, 45), r.uniform(-45, -20)):      # far out
        m = LogisticRegression({'Intercept': c0, 'Regressors': js})
        want = 1 / (1 + math.exp(-c0 - lp)) if c0 > 0 else math.exp(c0 + lp) / (1 + math.exp(c0 + lp))
        ctx.close(m.expectation(xs), want, 'expectation of a logistic regression far out', intercept=c0)
        if c0 < 0:
            ctx.expect(abs(m.expectation(xs) - want) <= 1e-9 * want, 'a small probability of a logistic regression', intercept=c0)
        ctx.expect(int(m.predict(xs)) == (c0 > 0) or abs(c0) < 50, 'a prediction of a logistic regression far out')
        mm = MultinomialLogisticRegression({'Intercepts': [c0, 0], 'Regressions': [js, []]})
        a, b = want, .5
        ctx.close(mm.expectation(xs)[0], a / (a + b), 'probabilities of a multinomial regression far out', intercept=c0)
    k = r.randint(2, 4)
    regs = [[{'Name': 'q', 'Type': 'Continuous', 'Value': round(r.uniform(-1, 1), 2)}] for _ in range(k)]
    big = r.choice([1, 1, 7])
    inc = [round(r.uniform(-1, 1) * big, 2) for _ in range(k)]
    labels = r.choice([['A', 'B', 'C', 'D'], ['b', 'a', 'D', 'C'], ['z', 'a10', 'a9', 'm']])[:k]
    given = labels if r.random() < .7 else None
    m = MultinomialLogisticRegression({'Intercepts': inc, 'Regressions': regs, **({'Labels': labels} if given else {})})
    names = list(m.Labels)
    ctx.expect(names == given if given else len(set(names)) == k, 'labels of a multinomial regression', got=names, given=given)
    q = {'q': round(r.uniform(-2, 2), 2)}
    ps = list(m.expectation(q))
    ctx.close(sum(ps), 1, 'probabilities of a multinomial regression')
    lps = [a + g[0]['Value'] * q['q'] for a, g in zip(inc, regs)]
    odds = [1 / (1 + math.exp(-x)) for x in lps]          # each label against the rest, then normalised
    for a, b in zip(ps, odds):
        ctx.close(a, b / sum(odds), 'probabilities of a multinomial regression', got=ps, predictors=lps)
    ctx.expect(len(ps) == len(names) == k, 'labels of a multinomial regression', got=names)
    for l, p in zip(names, ps):
        ctx.close(m.get_sampler(q).logpdf(l), math.log(p), 'sampler of a multinomial regression', label=l)
    ys = [m.predict(q)[0] for _ in range(200)]
    for l, p in zip(names, ps):
        ctx.expect(abs(ys.count(l) / 200 - p) < hoeffding(200), 'predictions of a multinomial regression', label=l)
    ctx.expect(xs == before, 'a prediction changed the covariates')


def baseline(r):
    t = r.choice(['exp', 'weibull', 'empirical'])
    if t == 'exp':
        a = round(r.uniform(.2, 3), 3)
        return {'Type': 'exp', 'Rate': a}, (lambda t: a * t), (lambda rr: 1 / (a * rr)), (lambda rr: 1 / (a * rr)), math.inf
    if t == 'weibull':
        l, k = round(r.uniform(.3, 2), 3), round(r.uniform(.7, 3), 3)
        m = lambda rr: math.gamma(1 + 1 / k) / l * rr ** (-1 / k)
        s = lambda rr: math.sqrt(math.gamma(1 + 2 / k) - math.gamma(1 + 1 / k) ** 2) / l * rr ** (-1 / k)
        return {'Type': 'weibull', 'Lambda': l, 'K': k}, (lambda t: (l * t) ** k), m, s, math.inf
    n = r.randint(2, 6)
    ts, hs = [0.0], [0.0]
    late = r.random() < .35                   # a baseline known from its first event on
    if late:
        ts, hs = [round(r.uniform(.2, 1.5), 3)], [round(r.choice([0.0, r.uniform(.1, .8)]), 3)]
    for _ in range(n):
        ts.append(round(ts[-1] + r.uniform(.3, 2), 3))
        hs.append(round(hs[-1] + (r.uniform(.2, 2) if n < 3 or r.random() < .75 else 0), 3))

    def H(t):
        return float(np.interp(t, ts, hs, left=0.0))
    return {'Type': 'empirical', 'Time': ts, 'CumHaz': hs}, H, None, None, ts[-1]


def hazards(ctx):
    r = ctx.rng
    js, H, mean, std, top = baseline(r)
    regs, xs, lp = regressors(r, small=True)
    rr = math.exp(lp)
    ctx.describe(baseline=js, xs=xs, risk=rr)
    ctx.nontrivial((js, xs))
    cox = CoxRegression({'Baseline': js, 'Regressors': regs})
    d = cox.get_sampler(xs)
    hz = cox.Hazard
    first = js['Time'][0] if js['Type'] == 'empirical' else 0.0
    if first:
        ctx.count('baselines starting after time zero')
    for t in [r.uniform(first + .01, min(top, first + 4)) for _ in range(5)]:
        ctx.close(hz.cum_hazard(t), H(t), 'cumulative hazard', time=t, baseline=js)
        inv = float(hz.inv_cum_hazard(H(t)))
        ctx.close(H(inv), H(t), 'inverse cumulative hazard', tol=1e-6, time=t, baseline=js)
        if js['Type'] != 'empirical' or H(t - 1e-3) < H(t) < H(t + 1e-3):
            ctx.close(inv, t, 'inverse cumulative hazard', tol=1e-6, time=t, baseline=js)
    if mean:
        ctx.close(d.mean(), mean(rr), 'mean survival time', baseline=js, risk=rr)
        ctx.close(d.std(), std(rr), 'spread of the survival time', baseline=js, risk=rr)
        ctx.close(cox.expectation(xs), mean(rr), 'expectation of a Cox regression', baseline=js, risk=rr)
    ctx.expect(tuple(d.Interval) == (0, math.inf), 'support of survival times')
    F = lambda t: 1.0 if t >= top else -math.expm1(-rr * H(t))
    n = 150
    ts = [float(t) for t in d.sample(n)]
    if mean:
        exchangeable(ctx, [F(t) for t in ts], 'survival times', baseline=js)
    one = [float(cox.predict(xs)) for _ in range(n // 2)] + [float(d.sample()) for _ in range(n // 2)]
    for zs, what in ((ts, 'survival times'), (one, 'single survival times')):
        ctx.expect(len(zs) in (n, n // 2 * 2) and all(z >= 0 for z in zs), what)
        zs = [z for z in zs]
        dev = 0.0
        for z in sorted(set(zs)):
            if z >= top - 1e-9:
                continue
            dev = max(dev, abs(sum(x <= z for x in zs) / len(zs) - F(z)))
            dev = max(dev, abs(sum(x < z for x in zs) / len(zs) - (F(z) if z > first else 0.0)))
        if top < math.inf:
            dev = max(dev, abs(sum(x >= top - 1e-9 for x in zs) / len(zs) - math.exp(-rr * H(top))))
        ctx.expect(dev < ks_critical(len(zs)), what + ' do not follow the hazard', deviation=dev, baseline=js, risk=rr)
    if mean:
        for t in (r.uniform(.2, 2), r.uniform(.2, 2)):
            e = 1e-4
            h = (H(t + e) - H(t - e)) / (2 * e)
            want = math.log(rr * h) - rr * H(t)
            ctx.close(d.logpdf(t), want, 'log density of a survival time', tol=1e-2, time=t, baseline=js, risk=rr)
        if js['Type'] == 'exp':
            t = r.uniform(5, 100)
            ctx.close(d.logpdf(t), math.log(rr * js['Rate']) - rr * H(t), 'log density of a late survival time', tol=1e-2, time=t)
            ctx.close(d.logpdf(1e-7), math.log(rr * js['Rate']), 'log density of an early survival time', tol=1e-2)
    else:
        for _ in range(3):
            t = r.uniform(0, first * .999)
            ctx.close(hz.cum_hazard(t), 0, 'cumulative hazard before the first time', time=t)
            ctx.close(hz.cum_hazard(top + t), js['CumHaz'][-1], 'cumulative hazard after the last time', time=top + t)
        ctx.expect(min(ts + one) >= first, 'a survival time before the first event of the baseline', got=min(ts + one), first=first)
        t = r.uniform(.01, top - .01)
        h = (H(t + 1e-4) - H(t - 1e-4)) / 2e-4
        if h > 0 and min(abs(t - x) for x in js['Time']) > 1e-3:
            ctx.close(d.logpdf(t), math.log(rr * h) - rr * H(t), 'log density of an empirical survival time', tol=1e-2, time=t,
                      baseline=js, risk=rr)
    for t in (-1e-9, -.5, -3.0):
        ctx.expect(d.logpdf(t) == -math.inf, 'a negative survival time has a density', time=t, got=d.logpdf(t))
    # another regression differing in one number has its own baseline
    other = {k: (list(v) if isinstance(v, list) else v) for k, v in js.items()}
    q = r.choice([k for k in other if k != 'Type'])
    other[q] = [x * 2 for x in other[q]] if isinstance(other[q], list) else other[q] * 2
    cox2 = CoxRegression({'Baseline': other, 'Regressors': regs})
    t = r.uniform(first + .05, min(top, first + 3))
    want2 = {'Rate': lambda: 2 * H(t), 'Lambda': lambda: (2 * js['Lambda'] * t) ** js['K'], 'K': lambda: (js['Lambda'] * t) ** (2 * js['K']),
             'Time': lambda: H(t / 2), 'CumHaz': lambda: 2 * H(t)}[q]()
    ctx.close(cox2.Hazard.cum_hazard(t), want2, 'cumulative hazard of another regression', baseline=other, time=t)
    ctx.close(cox.Hazard.cum_hazard(t), H(t), 'cumulative hazard after another regression', baseline=js, time=t)
    ctx.raises(KeyError, lambda: CoxRegression({'Baseline': dict(js, Type='gompertz'), 'Regressors': regs}), 'an unknown baseline')
    ctx.raises(KeyError, lambda: cox.get_sampler({k: v for k, v in xs.items() if k != regs[0]['Name']}), 'a missing covariate')
    # zero-inflated
    pregs, pxs, plp = regressors(r, small=True)
    ren = {g['Name']: 'p_' + g['Name'] for g in pregs}
    pregs = [dict(g, Name=ren[g['Name']]) for g in pregs]
    both = dict(xs, **{ren.get(k, k): v for k, v in pxs.items()})
    c0 = round(r.uniform(-1, 1), 3)
    z = ZeroInflatedCoxRegression({'PrZero': {'Intercept': c0, 'Regressors': pregs},
                                   'PrTTE': {'Baseline': js, 'Regressors': regs}})
    p = 1 / (1 + math.exp(-(c0 + plp)))
    d = z.get_sampler(both)
    ctx.close(d.logpdf(0), math.log(p), 'log probability of an immediate event', p=p)
    ctx.expect(d.logpdf(-.5) == -math.inf, 'a negative zero-inflated time has a density')
    ctx.expect(tuple(d.Interval) == (0, math.inf), 'support of zero-inflated times')
    if mean:
        m, s = mean(rr), std(rr)
        ctx.close(d.mean(), (1 - p) * m, 'mean of a zero-inflated time')
        ctx.close(d.std(), math.sqrt((1 - p) * (s * s + m * m) - ((1 - p) * m) ** 2), 'spread of a zero-inflated time')
        ctx.close(z.expectation(both), (1 - p) * m, 'expectation of a zero-inflated Cox regression')
        t = r.uniform(.2, 2)
        e = 1e-4
        h = (H(t + e) - H(t - e)) / (2 * e)
        want = math.log(1 - p) + math.log(rr * h) - rr * H(t)
        if want > -30:
            ctx.close(d.logpdf(t), want, 'log density of a zero-inflated time', tol=1e-2, time=t)
    n = 120
    ts = [float(t) for t in d.sample(n)]
    one = [float(z.predict(both)) for _ in range(n)]
    bs = [d.sample(2) for _ in range(n)]
    ctx.expect(abs(sum((a == 0) == (b == 0) for a, b in bs) / n - (p * p + (1 - p) ** 2)) < hoeffding(n),
               'immediate events within a batch of two depend on each other', p=p)
    pos = [x for x in ts if x > 0]
    if mean and len(pos) > 30:
        exchangeable(ctx, [F(t) for t in pos], 'later times', baseline=js)
    for zs in (ts, one):
        ctx.expect(len(zs) == n and abs(zs.count(0) / n - p) < hoeffding(n), 'frequency of immediate events', p=p, got=zs.count(0) / n)
        pos = [x for x in zs if 0 < x < top - 1e-9]
        for q in sorted(pos)[::7]:
            ctx.expect(abs(sum(x <= q for x in zs) / n - (p + (1 - p) * F(q))) < ks_critical(n), 'zero-inflated times do not follow the hazard')


def many(ctx):
    """thousands of draws at once are as independent as few"""
    r = ctx.rng
    p, rate, rr = round(r.uniform(.2, .8), 2), round(r.uniform(.3, 3), 2), round(r.uniform(.5, 2), 2)
    n = r.choice([1001, 2000, 5000])
    ctx.describe(p=p, rate=rate, risk=rr, n=n)
    ctx.nontrivial((p, rate, rr, n))
    F = lambda t: -math.expm1(-rate * rr * t)
    z = [float(x) for x in ZeroInflatedHazardDistribution(p, ExponentialHazard(rate), rr).sample(n)]
    h = [float(x) for x in HazardDistribution(ExponentialHazard(rate), rr).sample(n)]
    ctx.expect(len(z) == len(h) == n, 'number of draws', got=(len(z), len(h)))
    exchangeable(ctx, [F(t) for t in h], 'survival times', size=n)
    exchangeable(ctx, [F(t) for t in z if t > 0], 'later times', size=n)
    for part in (slice(0, n // 2), slice(n // 2, n), slice(0, n, 2), slice(1, n, 2)):
        a, b = z[part], h[part]
        ctx.expect(abs(a.count(0) / len(a) - p) < hoeffding(len(a)), 'immediate events are not spread over the draws', p=p,
                   got=a.count(0) / len(a))
        ctx.expect(ks_stat(b, F) < ks_critical(len(b)), 'survival times in one part of the draws')
        c = [x for x in a if x > 0]
        ctx.expect(ks_stat(c, F) < ks_critical(len(c)), 'later times in one part of the draws')
    both = sum(x == 0 and y == 0 for x, y in zip(z[::2], z[1::2])) / (n // 2)
    ctx.expect(abs(both - p * p) < hoeffding(n // 2), 'neighbouring draws are not independent', got=both, expected=p * p)


WORKLOADS = [('linear', linear, 120, 3000), ('hazards', hazards, 160, 4000), ('many', many, 8, 200)]
FLOOR = {'linear': 50, 'hazards': 50, 'many': 4}
