"""C27: fitting in parallel honours the contract of fitting in sequence."""
import math
import numpy as np
from rtm.core import same
from rtm.models import check_pars, pars_key, rand_model, ref_logprob
from rtm.smc import Spy, run, check_states, check_posterior
from rtm.bnlib import through_text
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.base import Particle

ID = 'C27'
RULE = ('random models fitted with 2 to 4 real worker processes; particles coming back from the workers are recomputed, and '
        'their form is compared with that of a sequential fit; distinct by script, targets and settings')
ASSUMPTIONS = ['the scheduling of worker processes is whatever the machine gives: workers are not steered']


def form(pt):
    return (type(pt), type(pt.Pars), set(dict(pt.Pars)), set(pt.Sims), set(pt.Notes), type(pt['Ys']), len(pt['Xs']))


def distinct_draws(ctx, m, pss, what, given=()):
    """continuous draws never coincide unless workers share their random numbers"""
    cont = [k for k in sorted(m.Free) if k not in given]
    seen = {}
    if not cont:
        return
    for p in pss:
        key = tuple(float(p[k]) for k in cont)
        ctx.expect(key not in seen, 'two workers drew the same %s' % what, values=dict(zip(cont, key)))
        seen[key] = 1


def rejection(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 4), fails=r.random() < .4, describe=ctx.describe, budget=4000, keep=True)
    n_test, p_test = r.choice([10, 25]), 1.0 if ctx.index % 4 == 2 else r.choice([.2, .5, 1.0])
    st = dict(n_test=n_test, p_test=p_test, parallel=True, n_core=(2, 4)[ctx.index % 2], verbose=0)
    ctx.describe(settings=st)
    ctx.nontrivial((m.Net.script(), str(m.Targets), str(st)))
    alg = ApproxBayesCom(**st)
    alg.fit(m)
    eps = alg.State.Eps
    ctx.expect(math.isfinite(eps), 'tolerance', eps=eps)
    n = 250 if ctx.index % 4 == 2 else r.choice([3, 10, 17])
    m.start_tally()
    post = alg.sample_posteriors(n)
    ran = m.tally()
    m.end_tally()
    ctx.count('runs in workers', n_test + n)
    ctx.expect(len(m.calls) == 0, 'a parallel fit simulated in the calling process')
    ctx.expect(len(post) == n and post.Algorithm == 'ABC' and post['ESS'] == n, 'posterior of a parallel fit', got=len(post))
    ctx.close(post['Eps'], eps, 'reported tolerance')
    ctx.close(post['Acceptance'], n / ran, 'the acceptance reported is not that of the simulations run', simulations=ran)
    k = n / post['Acceptance']
    ctx.expect(0 < post['Acceptance'] <= 1 and abs(k - round(k)) < 1e-6, 'reported acceptance', got=post['Acceptance'])
    for pt in post.Particles:
        p = dict(pt.Pars)
        check_pars(ctx, m, p, 'posterior parameters')
        ctx.expect(all(same(pt.Sims[q], v, 1e-9) for q, v in m.outputs(p).items()), 'the outputs of a particle are not those of '
                   'its parameters', pars=p, sims=dict(pt.Sims))
        d = m.ref_distance(pt.Sims)
        ctx.expect(d <= eps * (1 + 1e-9) + 1e-12, 'a posterior particle is beyond the tolerance', distance=d, eps=eps)
        ctx.close(pt['distance'], d, 'distance of a particle', tol=1e-6)
        ctx.close(pt.Pars.LogProb, ref_logprob(m.Net, p), 'log density of a particle', tol=1e-6)
    distinct_draws(ctx, m, [pt.Pars for pt in post.Particles], 'parameters')
    seq = ApproxBayesCom(**dict(st, parallel=False))
    seq.attach(m)
    seq.State = alg.State
    ref = seq.sample_posteriors(2)
    for pt in post.Particles:
        compare(ctx, m, pt, ref.Particles[0])
    ctx.expect(set(post.Notes) == set(ref.Notes), 'notes of a parallel fit', got=sorted(post.Notes), expected=sorted(ref.Notes))


def compare(ctx, m, a, b):
    fa, fb = form(a), form(b)
    ctx.expect(fa[:4] == fb[:4] and fa[4] == fb[4] and fa[6] == fb[6], 'particles of a parallel fit have another form',
               got=str(fa), expected=str(fb))


def same_form(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 3), describe=ctx.describe, budget=4000, discrete=.6)
    out = []
    for par in (True, False):
        alg = ApproxBayesCom(n_test=8, p_test=.5, parallel=par, n_core=(2, 4)[ctx.index % 2], verbose=0)
        alg.attach(m)
        alg.initialise()
        out.append(alg.sample_posteriors(4))
    ctx.nontrivial((m.Net.script(), str(m.Targets)))
    ctx.count('runs in workers', 12)
    for pt in out[0].Particles:
        compare(ctx, m, pt, out[1].Particles[0])
    ctx.expect(list(out[0].to_df().columns) and set(out[0].to_df()) == set(out[1].to_df()) and
               set(out[0].to_pred_df()) == set(out[1].to_pred_df()), 'tables of a parallel fit')


def sequential_mc(ctx):
    r = ctx.rng
    given = ctx.index % 3 == 1
    m = rand_model(r, n=r.randint(2, 4) if given else r.randint(1, 3), min_free=2 if given else 1, comb=ctx.index % 6 == 2, fails=not given and r.random() < .3, describe=ctx.describe, budget=4000,
                   grain=r.choice([0, 0, .5]))
    n = 150 if ctx.index % 5 == 2 else r.choice([10, 16])
    if ctx.index % 6 == 2:
        n = 20
        ctx.count('narrow')
    st = dict(n_iter=n, alpha=r.choice([.7, .9]), p_thres=r.choice([.3, .8]), max_round=r.choice([1, 2, 3]), min_acc=.05,
              parallel=True, n_core=(2, 4)[ctx.index % 2], verbose=0)
    ctx.describe(settings=st)
    ctx.nontrivial((m.Net.script(), str(m.Targets), str(st)))
    alg = Spy(**st)
    m.start_tally()
    if given:
        ps = [{k: dict(m.sample_prior())[k] for k in sorted(m.Free)[:1]} for _ in range(3)]
        alg.set_parents(ps)
        shots = run(alg, m)
        k = sorted(m.Free)[0]
        ctx.expect(all(any(p[k] == q[k] for q in ps) for p in shots[0].pars), 'an initial particle does not start from a given set')
        distinct_draws(ctx, m, shots[0].pars, 'initial parameters', given=[k])
    else:
        shots = run(alg, m)
        distinct_draws(ctx, m, shots[0].pars, 'initial parameters')
    ran = m.tally()
    m.end_tally()
    ctx.expect(len(m.calls) == 0, 'a parallel fit simulated in the calling process')
    check_states(ctx, m, alg, shots, n, serial=False)
    if not alg.collapsed:
        tr = alg.Monitor.Trajectories
        ctx.expect(list(tr['Round']) == list(range(len(shots))), 'trace of a parallel fit')
        for i, s in enumerate(shots):
            ctx.close(tr['Eps'].iloc[i], s.eps, 'tolerance in the trace')
            ctx.close(tr['ESS'].iloc[i], s.ess, 'sample size in the trace', tol=1e-6)
            ctx.close(tr['Acc'].iloc[i], s.acc, 'acceptance in the trace')
            ctx.expect(tr['Eval'].iloc[i] == int(tr['Eval'].iloc[i]) >= (n if i == 0 else 1), 'simulations in the trace', round=i)
        ctx.expect(int(tr['Eval'].sum()) == ran, 'the simulations reported are not those run', reported=list(tr['Eval']), run=ran)
        ctx.count('simulations in workers', ran)
        # fresh proposals differ between workers
        new = [p for s, t in zip(shots, shots[1:]) for p in t.pars if pars_key(p) not in {pars_key(q) for q in s.pars}]
        distinct_draws(ctx, m, list({pars_key(p): p for p in new}.values()), 'proposals')
        k = r.choice([3, 9])
        post = alg.sample_posteriors(k)
        check_posterior(ctx, m, shots[-1], post, k)
    ctx.count('runs in workers', n * len(shots))


WORKLOADS = [('rejection', rejection, 12, 300, {'cpu': 120}), ('form', same_form, 8, 150, {'cpu': 120}),
             ('smc', sequential_mc, 14, 300, {'cpu': 120})]
FLOOR = {'rejection': 4, 'form': 3, 'smc': 4, 'runs in workers': 200}
