"""C26: sequential ABC stops when it should and accounts for its work."""
import math
import numpy as np
from rtm.core import same
from rtm.models import rand_model
from rtm.smc import Spy, run
from checks.c25 import settings

ID = 'C26'
RULE = ('random models and settings (including failing simulations, tied distances, low acceptance); the rounds, the stopping '
        'reason, the trace and the number of simulations per round are recomputed from the captured states and the log; '
        'distinct by script, targets and settings')
ASSUMPTIONS = ['a run that needs more than 40000 simulations for at most 30 particles and 8 rounds counts as not terminating']


def reason(s, st, stay):
    if s.rnd >= st['max_round']:
        return 'max_round'
    if s.rnd >= 3 and stay >= st['max_stay']:
        return 'converged'
    if s.acc < st['min_acc']:
        return 'acceptance'


def accounting(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 3), fails=r.random() < .3, noise=r.choice([0, 0, .2]), discrete=.3, describe=ctx.describe,
                   grain=r.choice([.5, 1.0, 2.0]) if ctx.index % 4 == 3 else r.choice([0, .5, 2.0, 6.0]), budget=40000)
    st = dict(settings(r), max_round=r.choice([1, 2, 5, 8]), n_iter=r.choice([8, 12, 16]))
    if ctx.index % 4 == 1:
        st.update(min_acc=r.choice([.6, .9, 1]), max_round=8)
    elif ctx.index % 4 == 2:
        st.update(min_acc=0, max_stay=r.choice([1, 2]), alpha=.95, max_round=8)
    elif ctx.index % 4 == 3:
        st.update(min_acc=0, max_stay=r.choice([2, 3]), alpha=r.choice([.7, .8, .9]), max_round=12, n_iter=r.choice([16, 20]))
    if ctx.index % 12 == 7:
        st.update(max_stay=r.choice([9, 11, 13]), max_round=40, alpha=.8)
    ctx.describe(settings=st)
    alg = Spy(**dict(st, unknown=3))
    for k, v in st.items():
        ctx.expect(alg.Settings[k] == v, 'a setting was not taken', setting=k)
    ctx.expect('unknown' not in alg.Settings, 'an unknown setting was taken')
    for rep in range(r.choice([1, 1, 2])):
        shots = run(alg, m)
        if alg.collapsed:
            ctx.count('collapsed')
            continue
        ctx.nontrivial((m.Net.script(), str(m.Targets), str(st), rep))
        ctx.expect([s.rnd for s in shots] == list(range(len(shots))), 'rounds of a fit', got=[s.rnd for s in shots])
        ctx.expect(len(shots) > 1, 'a fit stopped before its first round')
        # rounds in a row without progress, from the tolerances alone
        stay, broken = [0], False
        for a, b in zip(shots, shots[1:]):
            if b.eps < a.eps and stay[-1]:
                broken = True
            stay.append(0 if b.eps < a.eps else stay[-1] + 1)
        if broken:
            ctx.count('progress after none')
        ctx.expect([s.stay for s in shots] == stay, 'count of rounds without progress', got=[s.stay for s in shots], expected=stay)
        for s, k in list(zip(shots, stay))[1:-1]:
            ctx.expect(reason(s, st, k) is None, 'the fit did not stop', round=s.rnd, reason=reason(s, st, k), stay=k, acc=s.acc,
                       settings=st)
        why = reason(shots[-1], st, stay[-1])
        ctx.expect(why is not None, 'the fit stopped early', round=shots[-1].rnd, stay=stay[-1], acc=shots[-1].acc, settings=st)
        ctx.count('stopped by ' + why)
        tr = alg.Monitor.Trajectories
        post = alg.sample_posteriors(3)
        for t in (tr, post['Trace']):
            ctx.expect(len(t) == len(shots) and list(t.index) == list(range(len(shots))), 'rows of the trace', got=list(t.index),
                       rounds=len(shots))
            for i, s in enumerate(shots):
                row = t.iloc[i]
                ctx.expect(row['Round'] == i, 'round in the trace', got=row['Round'], expected=i)
                ctx.close(row['Eps'], s.eps, 'tolerance in the trace', round=i)
                ctx.close(row['ESS'], s.ess, 'effective sample size in the trace', round=i)
                ctx.close(row['Acc'], s.acc, 'acceptance in the trace', round=i)
                # states are reached after the simulations of their round
                done = s.n_calls - (shots[i - 1].n_calls if i else 0)
                ctx.expect(row['Eval'] == done, 'the trace reports another number of simulations', round=i, reported=row['Eval'],
                           simulated=done)
        eps = list(tr['Eps'])
        ctx.expect(all(b <= a for a, b in zip(eps, eps[1:])), 'the tolerance in the trace grew', eps=eps)
        ctx.close(shots[0].thres, st['n_iter'] * st['p_thres'], 'resampling threshold')


WORKLOADS = [('accounting', accounting, 96, 4000, {'cpu': 200})]
FLOOR = {'accounting': 40, 'stopped by max_round': 10, 'stopped by converged': 3, 'stopped by acceptance': 3}
