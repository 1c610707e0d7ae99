"""C34: the models shipped with the package simulate what they state."""
import math
import numpy as np
from rtm.core import same
from rtm.dists import LAWS, ks_stat, ks_critical, hoeffding
from sims_pars.fit.toys import get_betabin, get_normal2, get_sir
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.bayesnet import Chromosome

ID = 'C34'
RULE = ('random truths and parameters of the three models; epidemics are compared with a fine integration of the stated equations, '
        'counts and means with their stated laws; distinct by truth and parameters')
ASSUMPTIONS = ['trajectories are judged up to the tolerance of the default adaptive integrator (3 % of the largest value)']


def rk4(be, ga, times, h=.002):
    """S I R by a fixed fine step"""
    def f(s, i):
        new = be * s * i / 1000
        return -new, new - ga * i
    s, i, t, out = 990.0, 10.0, 0.0, []
    for k in range(int(round(times[-1] / h))):
        for x in times:
            if abs(k * h - x) < h / 2:
                out.append((s, i))
        a = f(s, i)
        b = f(s + h / 2 * a[0], i + h / 2 * a[1])
        c = f(s + h / 2 * b[0], i + h / 2 * b[1])
        d = f(s + h * c[0], i + h * c[1])
        s += h / 6 * (a[0] + 2 * b[0] + 2 * c[0] + d[0])
        i += h / 6 * (a[1] + 2 * b[1] + 2 * c[1] + d[1])
    out.append((s, i))
    return out


def epidemics(ctx):
    r = ctx.rng
    be, ga = round(r.uniform(1, 20), 3), round(r.uniform(.1, 1), 3)
    if r.random() < .4:
        be = round(r.uniform(.5, 3), 3)
    b0, g0 = round(r.uniform(1, 3), 3), round(r.uniform(.1, .6), 3)
    m = get_sir(b0, g0)
    ctx.describe(truth=(b0, g0), at=(be, ga))
    ctx.nontrivial((be, ga, b0, g0))
    ts = list(range(2, 8))
    names = {'%s_%d' % (k, t) for k in ('Inc', 'Prev', 'Rec') for t in ts}
    ctx.expect(set(m.Data) == names, 'outputs of the epidemic', got=sorted(m.Data))
    ctx.expect(sorted(m.FreeParameters) == ['beta', 'gamma'], 'free parameters of the epidemic', got=m.FreeParameters)
    doms = {d.Name: (d.Lower, d.Upper) for d in m.Domain}
    ctx.expect(all(same(a, b, 1e-9) for k, v in {'gamma': (.1, 1), 'beta': (1, 20)}.items() for a, b in zip(doms[k], v)),
               'domains of the epidemic', got=doms)
    for p, truth in (({'beta': b0, 'gamma': g0}, True), ({'beta': be, 'gamma': ga}, False)):
        c = m.serve(p) if 1 <= p['beta'] else Chromosome(p)
        before = dict(c)
        pt = m.simulate(c)
        ys = pt.Sims
        ctx.expect(dict(c) == before and dict(pt.Pars) == before, 'a simulation changed its parameters')
        ctx.expect(set(ys) == names, 'outputs of a simulation', got=sorted(ys))
        ref = rk4(p['beta'], p['gamma'], ts)
        top = max(i for _, i in ref) / 1000
        topinc = max(p['beta'] * s * i / 1e6 for s, i in ref)
        for t, (s, i) in zip(ts, ref):
            prev, inc, rec = ys['Prev_%d' % t], ys['Inc_%d' % t], ys['Rec_%d' % t]
            ctx.expect(0 <= prev <= 1 and inc >= -1e-3, 'an impossible prevalence or incidence', time=t, prevalence=prev, incidence=inc)
            ctx.expect(abs(prev - i / 1000) < .03 * top + 1e-4, 'prevalence', time=t, got=prev, expected=i / 1000)
            ctx.expect(abs(inc - p['beta'] * s * i / 1e6) < .05 * topinc + .03 * p['beta'] * .02, 'incidence', time=t, got=inc,
                       expected=p['beta'] * s * i / 1e6)
            ctx.close(rec, p['gamma'] * prev, 'recovery', time=t)
            ctx.count('points')
        again = m.simulate(c)
        ctx.expect(dict(again.Sims) == dict(ys), 'an epidemic without randomness differs')
        d = m.calc_distance(pt)
        if truth:
            ctx.expect(abs(d) < 1e-9, 'the truth is at a distance of its own outputs', distance=d)
        else:
            far = sum((ys[k] - w) ** 2 / (.05 * abs(w) / 2 / 1.96) for k, w in truth_ys.items())
            ctx.close(d, far, 'distance of an epidemic', tol=1e-6)
        if truth:
            truth_ys = dict(ys)


def counts(ctx):
    r = ctx.rng
    data = (r.randint(1, 10), r.randint(1, 20))
    if r.random() < .2:
        data = (7, 14)
    m = get_betabin(data) if data != (7, 14) else get_betabin()
    ctx.expect(sorted(m.FreeParameters) == ['p1', 'p2'] and set(m.Data) == {'x1', 'x2'}, 'parameters of the counts', got=m.FreeParameters)
    n = 200
    p1, p2 = round(r.uniform(.05, .95), 2), round(r.uniform(.05, .95), 2)
    c = m.serve({'p1': p1, 'p2': p2})
    ctx.describe(data=data, p1=p1, p2=p2)
    ctx.nontrivial((data, p1, p2))
    xs = [m.simulate(c).Sims for _ in range(n)]
    for k, size, p in (('x1', 10, p1), ('x2', 20, p2)):
        ctx.expect(all(0 <= x[k] <= size and float(x[k]) == int(x[k]) for x in xs), 'a count', output=k)
        for v in range(size + 1):
            cdf = sum(math.comb(size, j) * p ** j * (1 - p) ** (size - j) for j in range(v + 1))
            ctx.expect(abs(sum(x[k] <= v for x in xs) / n - cdf) < hoeffding(n), 'law of a count', output=k, value=v)
    pr = [m.sample_prior() for _ in range(n)]
    for k in ('p1', 'p2'):
        dev = ks_stat([p[k] for p in pr], lambda v: min(1, max(0, v)))
        ctx.expect(dev < ks_critical(n), 'prior of a probability', parameter=k, deviation=dev)
    ctx.expect(all(abs(p.LogProb) < 1e-9 for p in pr), 'prior density')
    ctx.expect(m.Data['x1'].Value == data[0] and m.Data['x2'].Value == data[1], 'data of the counts')


def means(ctx):
    r = ctx.rng
    mu = (round(r.uniform(-30, 30), 1), round(r.uniform(-5, 5), 1))
    n = r.choice([1, 2, 10, 100, 400])
    m = get_normal2(mu, n=n)
    for i, k in enumerate(('x1', 'x2')):
        v = m.Data[k].Value
        ctx.expect(abs(v - mu[i]) * math.sqrt(n) < 9, 'data of the normals', got=v, truth=mu[i])
    a, b, s = r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(.3, 3)
    ctx.describe(mu=mu, n=n, at=(a, b, s))
    ctx.nontrivial((mu, n, a, b, s))
    c = m.serve({'mu1': a, 'mu2': b, 'std': s})
    k = 300
    xs = [m.simulate(c).Sims for _ in range(k)]
    for y, mean in (('x1', a), ('x2', b)):
        dev = ks_stat([x[y] for x in xs], lambda v: LAWS['norm'].cdf(v, mean, s / math.sqrt(n)))
        ctx.expect(dev < ks_critical(k), 'law of a mean', output=y, deviation=dev)
    z = [(x['x1'] > a) == (x['x2'] > b) for x in xs]
    ctx.expect(abs(sum(z) / k - .5) < hoeffding(k), 'the two means are not independent')


def fitted(ctx):
    """the shipped models can be fitted"""
    r = ctx.rng
    which = r.choice(['sir', 'bb', 'n2'])
    m = {'sir': lambda: get_sir(1.5, .2), 'bb': get_betabin, 'n2': lambda: get_normal2((3, -2))}[which]()
    alg = ApproxBayesCom(parallel=False, n_test=15, p_test=.3)
    alg.fit(m)
    post = alg.sample_posteriors(6)
    ctx.describe(model=which)
    ctx.nontrivial((which, [dict(p.Pars) for p in post.Particles]))
    ctx.expect(len(post) == 6, 'size of a posterior')
    for p in post.Particles:
        ctx.expect(set(p['Ys']) == set(m.Data), 'outputs of a posterior', got=sorted(p['Ys']))
        ctx.expect(m.calc_distance(p) <= alg.State.Eps * (1 + 1e-9), 'distance of a posterior')


WORKLOADS = [('epidemics', epidemics, 240, 4000), ('counts', counts, 40, 600), ('means', means, 40, 600), ('fitted', fitted, 16, 200)]
FLOOR = {'epidemics': 80, 'counts': 16, 'means': 16, 'fitted': 8}
