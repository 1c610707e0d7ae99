"""Monitors of sequential ABC: every state the algorithm passes through is captured."""
import math

import numpy as np

from rtm.core import same
from rtm.models import check_pars, pars_key, ref_logprob
from sims_pars.fit.abc_smc import ApproxBayesComSMC


class Shot:
    """a state, and its contents at the time when it was reached"""
    def __init__(self, state, n_calls):
        self.state, self.n_calls = state, n_calls
        self.wts = np.array(state.Wts, dtype=float).copy()
        self.pars = [dict(p.Pars) for p in state.Particles]
        self.sims = [dict(p.Sims) for p in state.Particles]
        self.rnd, self.stay, self.ess, self.acc = state.Round, state.Stay, state.ESS, state.Acceptance
        self.eps, self.thres = state.Eps, state.EpsThres


class Spy(ApproxBayesComSMC):
    """records each state assigned to the fitter"""
    def __init__(self, **kwargs):
        self.shots = []
        self.watch = None
        ApproxBayesComSMC.__init__(self, **kwargs)

    @property
    def State(self):
        return self.__dict__.get('_state')

    @State.setter
    def State(self, v):
        self.__dict__['_state'] = v
        if v is not None:
            self.shots.append(Shot(v, len(self.watch.calls) if self.watch is not None else 0))


def run(alg, m, **kw):
    alg.shots = []
    alg.watch = m
    m.calls.clear()
    alg.collapsed = False
    try:
        alg.fit(m, **kw)
    except AssertionError:
        # the sampler refuses to continue on fewer than three survivors
        alg.collapsed = True
        a = alg.shots[-1]
        ds = np.array([m.ref_distance(y) for y in a.sims])
        eps = min(a.eps, float(np.quantile(ds, alg.Settings['alpha'] * (ds <= a.eps * (1 + 1e-12)).mean())))
        if int(((ds <= eps * (1 + 1e-12)) & (a.wts > 0)).sum()) > 2:
            raise
    return alg.shots


def check_states(ctx, m, alg, shots, n, parents=None, serial=True):
    """invariants of every state and of every step"""
    alpha, p_thres = alg.Settings['alpha'], alg.Settings['p_thres']
    log = {(pars_key(p), pars_key(y)) for p, y, _ in m.calls}
    prev = None
    for s in shots:
        what = dict(round=s.rnd)
        ctx.expect(len(s.pars) == n and len(s.wts) == n, 'number of particles', got=len(s.pars), expected=n)
        ctx.expect(bool(np.all(s.wts >= 0)) and same(s.wts.sum(), 1, 1e-9), 'weights are not a distribution', sum=s.wts.sum(), **what)
        ctx.close(s.ess, 1 / (s.wts ** 2).sum(), 'effective sample size', tol=1e-6, **what)
        ctx.expect(0 <= s.acc <= 1, 'acceptance', acc=s.acc)
        ds = [m.ref_distance(y) for y in s.sims]
        for i in range(n):
            check_pars(ctx, m, s.pars[i], 'parameters of a particle')
            if serial:
                ctx.expect((pars_key(s.pars[i]), pars_key(s.sims[i])) in log, 'a particle was never simulated', pars=s.pars[i],
                           sims=s.sims[i], **what)
            elif not m.Noise:
                ctx.expect(all(same(s.sims[i][k], v, 1e-9) for k, v in m.outputs(s.pars[i]).items()), 'the outputs of a particle '
                           'are not those of its parameters', pars=s.pars[i], sims=s.sims[i])
            ctx.expect(math.isfinite(ref_logprob(m.Net, s.pars[i])), 'a particle is impossible under the prior', pars=s.pars[i])
            lp = s.state.Particles[i].Pars.LogProb
            if not math.isnan(lp):
                ctx.close(lp, ref_logprob(m.Net, s.pars[i]), 'log density of a particle', tol=1e-6)
            ctx.expect(math.isfinite(ds[i]), 'a particle failed to simulate', **what)
            if s.wts[i] > 0:
                ctx.expect(ds[i] <= s.eps * (1 + 1e-9) + 1e-12, 'a particle with weight is beyond the tolerance', distance=ds[i],
                           eps=s.eps, **what)
        s.ds = ds
        if prev is None:
            ctx.expect(s.rnd == 0 and s.eps == np.inf and np.allclose(s.wts, 1 / n), 'initial state', eps=s.eps)
        else:
            step(ctx, prev, s, n, alpha, p_thres)
        prev = s
    # no state is altered after it was left
    for s in shots:
        ctx.expect([dict(p.Pars) for p in s.state.Particles] == s.pars and np.array_equal(np.asarray(s.state.Wts), s.wts),
                   'a state was altered after it was left', round=s.rnd)


def step(ctx, a, b, n, alpha, p_thres):
    ctx.count('rounds')
    what = dict(round=b.rnd)
    ctx.expect(b.rnd == a.rnd + 1, 'rounds are not counted', before=a.rnd, after=b.rnd)
    ctx.expect(b.eps <= a.eps, 'the tolerance grew', before=a.eps, after=b.eps, **what)
    ds = np.array(a.ds)
    target = float(np.quantile(ds, alpha * (ds <= a.eps * (1 + 1e-12) if np.isfinite(a.eps) else ds < np.inf).mean()))
    eps = min(a.eps, target)
    if target > a.eps * (1 + 1e-9):
        ctx.count('tolerance held back')
    ctx.close(b.eps, eps, 'the tolerance is not the quantile of the current distances', tol=1e-9, before=a.eps, **what)
    if b.eps < a.eps:
        ctx.expect(b.stay == 0, 'count of rounds without progress', got=b.stay, **what)
        ctx.count('progress')
    else:
        ctx.expect(b.stay == a.stay + 1, 'count of rounds without progress', got=b.stay, before=a.stay, **what)
        ctx.count('no progress')
    w = np.where(ds <= b.eps * (1 + 1e-12), a.wts, 0)
    ctx.expect(w.sum() > 0, 'no particle survived', **what)
    w = w / w.sum()
    x = n * p_thres * (w ** 2).sum()
    if abs(x - 1) < 1e-9:
        pass
    elif x > 1:
        ctx.expect(np.allclose(b.wts, 1 / n), 'degenerate particles were not resampled', ess=1 / (w ** 2).sum(), **what)
        ctx.count('resampled')
    else:
        ctx.expect(np.allclose(b.wts, w), 'weights are not those of the survivors', got=b.wts, expected=w, **what)
        ctx.count('reweighted')
    alive = {pars_key(p) for p, v in zip(a.pars, w) if v > 0}
    changed = 0
    for i in range(n):
        k = pars_key(b.pars[i])
        if x > 1:
            new = k not in alive
        else:
            new = k != pars_key(a.pars[i])
        if new:
            changed += 1
            ctx.expect(b.ds[i] <= b.eps * (1 + 1e-9) + 1e-12, 'a new particle is beyond the tolerance', distance=b.ds[i], eps=b.eps,
                       **what)
    ctx.expect(changed <= round(b.acc * n), 'more particles were replaced than reported', changed=changed, acc=b.acc, **what)
    ctx.count('moved', changed)


def check_posterior(ctx, m, s, post, n):
    """posterior against the final state"""
    alive = {}
    for p, y, w in zip(s.pars, s.sims, s.wts):
        if w > 0:
            alive[pars_key(p)] = y
    ctx.expect(len(post) == n, 'size of the posterior', got=len(post), expected=n)
    ctx.expect(post.Algorithm == 'ABC-SMC', 'name of the algorithm', got=post.Algorithm)
    ctx.close(post['Eps'], s.eps, 'reported tolerance')
    for pt in post.Particles:
        k = pars_key(pt.Pars)
        ctx.expect(k in alive, 'a posterior particle is not a weighted particle of the final state', pars=dict(pt.Pars))
        ctx.expect(m.ref_distance(pt.Sims) <= s.eps * (1 + 1e-9) + 1e-12, 'a posterior particle is beyond the tolerance')
        check_pars(ctx, m, pt.Pars, 'posterior parameters')
        ctx.expect({q: pt.Sims[q] for q in m.Data} == {q: pt['Ys'][q] for q in m.Data}, 'outputs of a posterior particle')
