"""C24: rejection ABC."""
import math
import numpy as np
from rtm.core import same
from rtm.dists import ks_stat, ks_critical
from rtm.models import RecModel, check_pars, pars_key, rand_model, ref_logprob
from rtm.gen import Net, Node, Num, Var, Bin
from sims_pars.bayesnet import bayes_net_from_script
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.targets import read_targets

ID = 'C24'
RULE = ('random models (noisy or not, with failing simulations) and settings; every simulation is logged and the tolerance '
        'and the posterior are recomputed from the log; distinct by script, targets and settings')
ASSUMPTIONS = ['workloads run the sequential mode (the parallel one is decided in C27)',
               'the posterior of a known problem is judged by a Kolmogorov-Smirnov bound with error probability < 1e-10']


def rejection(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 4), fails=r.random() < .4, noise=r.choice([0, 0, .2]), describe=ctx.describe, budget=60000,
                   grain=r.choice([0, 0, .5]))
    n_test, p_test = r.choice([1, 5, 10, 25]), r.choice([.05, .2, .5, 1.0, round(r.uniform(.05, 1), 2)])
    st = dict(n_test=n_test, p_test=p_test, parallel=False)
    if r.random() < .5:
        alg = ApproxBayesCom(**st)
        kw = {}
    else:
        alg = ApproxBayesCom(parallel=False, n_test=3)
        kw = dict(st, unknown_setting=1)
    for rep in range(r.choice([1, 1, 2])):
        m.calls.clear()
        alg.fit(m, **kw)
        log = list(m.calls)
        ds = [d for _, _, d in log if math.isfinite(d)]
        ctx.expect(len(ds) == n_test, 'number of test runs', got=len(ds), expected=n_test)
        eps = float(np.quantile(np.array(ds), p_test))
        ctx.close(alg.State.Eps, eps, 'the tolerance is not the quantile of the test distances', distances=sorted(ds), p=p_test)
        for p, _, _ in log:
            check_pars(ctx, m, p, 'test parameters')
        for again in range(r.choice([1, 2])):
            n = r.choice([1, 2, 5, 12])
            if p_test < .15 and n_test >= 20:
                n = min(n, 5)
            if p_test >= .5 and m.Grain and r.random() < .5:
                # many, and some just within the tolerance
                n = r.choice([70, 90])
            m.calls.clear()
            post = alg.sample_posteriors(n)
            log = list(m.calls)
            acc = [c for c in log if c[2] <= alg.State.Eps or same(c[2], alg.State.Eps, 1e-12)]
            ctx.describe(settings=dict(st, n_collect=n))
            ctx.nontrivial((m.Net.script(), str(m.Targets), n_test, p_test, n))
            ctx.expect(len(post) == n and len(post.Particles) == n, 'size of the posterior', got=len(post), expected=n)
            ctx.close(alg.State.Eps, eps, 'collecting changed the tolerance')
            ctx.expect(len(acc) == n, 'the posterior is not made of the accepted simulations', accepted=len(acc), size=n)
            for pt, (p, ys, d) in zip(post.Particles, acc):
                ctx.expect(dict(pt.Pars) == p and dict(pt.Sims) == ys, 'a posterior particle is not an accepted simulation',
                           got=(dict(pt.Pars), dict(pt.Sims)), simulated=(p, ys))
                d2 = m.ref_distance(pt.Sims)
                ctx.expect(d2 <= eps * (1 + 1e-9) + 1e-12, 'a posterior particle is beyond the tolerance', distance=d2, eps=eps)
                ctx.close(pt['distance'], d2, 'the distance of a particle', tol=1e-6)
                check_pars(ctx, m, pt.Pars, 'posterior parameters')
                ctx.close(pt.Pars.LogProb, ref_logprob(m.Net, p), 'log density of a posterior particle', tol=1e-6)
                ctx.expect(pt['Ys'] == {k: ys[k] for k in m.Data} and list(pt['Xs']) == [p[k] for k in m.FreeParameters],
                           'outputs of a posterior particle', got=pt.Notes)
            ctx.expect(post.Algorithm == 'ABC', 'name of the algorithm', got=post.Algorithm)
            ctx.close(post['Eps'], eps, 'reported tolerance')
            ctx.close(post['Acceptance'], n / len(log), 'reported acceptance', simulations=len(log))
            ctx.expect(post['ESS'] == n, 'reported sample size')
            ctx.count('rejected', len(log) - n)
            df = post.to_df()
            ctx.expect(len(df) == n and all(same(df[k][i], post.Particles[i].Pars[k], 1e-12) for i in range(n) for k in df),
                       'table of the posterior')
    ctx.expect(len(ApproxBayesCom(parallel=False).Collector) == 0 and m.ExoParameters == m.Exo0, 'exogenous parameters')


def known(ctx):
    """x ~ U(a, b), y = c x + noise-free: the exact posterior is uniform on an interval"""
    r = ctx.rng
    a, b = round(r.uniform(-3, 0), 2), round(r.uniform(1, 4), 2)
    c = r.choice([1.0, 2.0, -1.5])
    law = {'min': Num(a), 'max': Num(b)}
    src = 'unif(%s, %s)' % (law['min'].src(), law['max'].src())
    net = Net('U', [Node('x', 'dist', law='unif', params=law, src=src)])
    v = round(c * r.uniform(a + .3, b - .3), 3) or .1
    m = RecModel.__new__(RecModel)
    m.Targets = {'y': ('point', v, .5)}
    m.Exo0, m.Free = {}, {'x'}
    RecModel.__init__(m, net, bayes_net_from_script(net.script()), read_targets({'y': v}, error=.5),
                      {'y': Bin('*', Num(c), Var('x'))}, budget=200000)
    m.keep_calls = True
    alg = ApproxBayesCom(parallel=False, n_test=60, p_test=r.choice([.2, .5]))
    alg.fit(m)
    eps = alg.State.Eps
    h = math.sqrt(eps * .5 * abs(v) / 2 / 1.96) / abs(c)
    lo, hi = max(a, v / c - h), min(b, v / c + h)
    n = 250
    post = alg.sample_posteriors(n)
    xs = [pt.Pars['x'] for pt in post.Particles]
    ctx.describe(script=net.script(), factor=c, target=v, eps=eps)
    ctx.nontrivial((a, b, c, v))
    ctx.expect(all(lo - 1e-9 <= x <= hi + 1e-9 for x in xs), 'a particle outside the exact posterior', lo=lo, hi=hi)
    d = ks_stat(xs, lambda x: min(1, max(0, (x - lo) / (hi - lo))))
    ctx.expect(d < ks_critical(n), 'the posterior has another law than the exact one', deviation=d, bound=ks_critical(n))


def narrow(ctx):
    """a tolerance which few simulations meet is kept to the end"""
    r = ctx.rng
    m = rand_model(r, n=1, kinds=('point', 'range'), n_out=1, describe=ctx.describe, budget=60000)
    n_test, p_test = r.choice([(400, .0125), (500, .012), (300, .015)])
    alg = ApproxBayesCom(parallel=False, n_test=n_test, p_test=p_test)
    alg.fit(m)
    ds = [d for _, _, d in m.calls if math.isfinite(d)]
    eps = float(np.quantile(np.array(ds), p_test))
    m.calls.clear()
    n = 10
    post = alg.sample_posteriors(n)
    ctx.nontrivial((m.Net.script(), str(m.Targets), n_test, p_test))
    ctx.close(alg.State.Eps, eps, 'a narrow tolerance')
    ctx.expect(len(post) == n, 'size of the posterior')
    worst = max(m.ref_distance(pt.Sims) for pt in post.Particles)
    ctx.expect(worst <= eps * (1 + 1e-9) + 1e-12, 'a particle is beyond a narrow tolerance', worst=worst, eps=eps)
    ctx.close(post['Acceptance'], n / len(m.calls), 'acceptance under a narrow tolerance')
    ctx.count('simulations under narrow tolerances', len(m.calls))


WORKLOADS = [('rejection', rejection, 72, 6000, {'cpu': 120}), ('known', known, 16, 500, {'cpu': 120}),
             ('narrow', narrow, 16, 500, {'cpu': 300})]
FLOOR = {'rejection': 40, 'known': 8, 'rejected': 200, 'narrow': 8}
