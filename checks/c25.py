"""C25: states and posteriors of sequential ABC."""
import math
import numpy as np
from rtm.models import rand_model, pars_key, ref_draw, check_pars
from rtm.smc import Spy, run, check_states, check_posterior
from rtm.dists import hoeffding

ID = 'C25'
RULE = ('random models (noisy or not, with failing simulations, discrete and fixed variables, tied distances) and settings; '
        'every state of the sampler is captured and recomputed from the previous one and from the log of simulations; '
        'distinct by script, targets and settings')
ASSUMPTIONS = ['workloads run the sequential mode (the parallel one is decided in C27)']


def settings(r):
    return dict(n_iter=r.choice([8, 12, 20, 30]), alpha=r.choice([.6, .8, .9, .95]), p_thres=r.choice([.2, .6, .9]),
                max_round=r.choice([1, 2, 4, 6]), max_stay=r.choice([1, 2, 3]), min_acc=r.choice([0, .05, .1, .3]),
                parallel=False)


def fits(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 4), fails=r.random() < .3, noise=r.choice([0, 0, .2]), discrete=.3, describe=ctx.describe,
                   grain=r.choice([0, 0, .5, 2.0]), budget=40000)
    st = settings(r)
    if ctx.index % 14 == 5:                   # many particles
        st.update(n_iter=r.choice([220, 300]), max_round=2, alpha=.6, p_thres=.9)
        ctx.count('large populations')
    ctx.describe(settings=st)
    alg = Spy(**st)
    for rep in range(r.choice([1, 1, 1, 2])):
        if rep:
            st = dict(settings(r), n_iter=10)
        shots = run(alg, m, **(st if rep else {}))
        ctx.nontrivial((m.Net.script(), str(m.Targets), str(st), rep))
        check_states(ctx, m, alg, shots, st['n_iter'])
        if alg.collapsed:
            ctx.count('collapsed')
            continue
        n = r.choice([1, 5, 20])
        post = alg.sample_posteriors(n)
        check_posterior(ctx, m, shots[-1], post, n)
        check_states(ctx, m, alg, shots, st['n_iter'])


def slow(ctx):
    """tolerances which hardly move, while particles stay beyond them"""
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 2), noise=r.choice([0, 0, .2]), describe=ctx.describe, budget=40000, discrete=0)
    st = dict(alpha=r.choice([.95, .97, .99]), min_acc=0, max_stay=99, max_round=8, n_iter=r.choice([8, 10, 12]),
              p_thres=r.choice([.1, .3, .6]), parallel=False)
    ctx.describe(settings=st)
    alg = Spy(**st)
    shots = run(alg, m)
    ctx.nontrivial((m.Net.script(), str(m.Targets), str(st)))
    check_states(ctx, m, alg, shots, st['n_iter'])


def parents(ctx):
    """starting from given parameter sets"""
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 4), describe=ctx.describe, budget=40000, discrete=0)
    ks = sorted(r.sample(sorted(m.Free), r.randint(1, len(m.Free))))
    ps = []
    for _ in range(r.randint(1, 6)):
        e = ref_draw(r, m.Net, m.Exo0)
        ps.append({k: e[k] for k in ks})
    st = dict(settings(r), n_iter=r.choice([8, 12]), max_round=2)
    alg = Spy(**st)
    alg.set_parents([dict(p) for p in ps])
    shots = run(alg, m)
    ctx.describe(settings=st, parents=ps)
    ctx.nontrivial((m.Net.script(), str(ps), str(st)))
    for p in shots[0].pars:
        ctx.expect(any(all(p[k] == q[k] for k in ks) for q in ps), 'an initial particle does not start from a given set', pars=p,
                   given=ps)
    check_states(ctx, m, alg, shots, st['n_iter'])
    if not alg.collapsed:
        check_posterior(ctx, m, shots[-1], alg.sample_posteriors(5), 5)


def weighting(ctx):
    """posterior draws follow the weights of the final state"""
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 2), describe=ctx.describe, budget=40000, discrete=0)
    st = dict(settings(r), n_iter=10, max_round=r.choice([1, 2]), p_thres=.05)
    alg = Spy(**st)
    shots = run(alg, m)
    if alg.collapsed:
        ctx.count('collapsed')
        return
    s = shots[-1]
    n = 150
    post = alg.sample_posteriors(n)
    check_posterior(ctx, m, s, post, n)
    w = {}
    for p, v in zip(s.pars, s.wts):
        w[pars_key(p)] = w.get(pars_key(p), 0) + v
    ctx.nontrivial((m.Net.script(), str(st)))
    for k, v in w.items():
        f = sum(pars_key(p.Pars) == k for p in post.Particles) / n
        ctx.expect(abs(f - v) < hoeffding(n), 'posterior draws do not follow the weights', frequency=f, weight=v)


WORKLOADS = [('fits', fits, 56, 2600, {'cpu': 200}), ('slow', slow, 72, 1600, {'cpu': 200}), ('parents', parents, 24, 800, {'cpu': 200}),
             ('weighting', weighting, 16, 400, {'cpu': 200})]
FLOOR = {'fits': 24, 'slow': 24, 'tolerance held back': 1, 'parents': 8, 'weighting': 4, 'rounds': 80, 'resampled': 10, 'reweighted': 10, 'moved': 100, 'no progress': 10}
