"""Data models over random networks whose simulations are recorded and can be recomputed."""
import logging
import math
import os
import tempfile

import numpy as np

from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets
from rtm.bnlib import build, draw_value, full_env
from rtm.core import StepBudget
from rtm.dists import LAWS
from rtm.gen import total_logp, Net, exo_values, rand_net, sensitive

LOGGERS = ('ApproxBayesCom', 'ApproxBayesComSMC', 'BHM')


def quiet():
    os.environ['TQDM_DISABLE'] = '1'
    for n in LOGGERS:
        lg = logging.getLogger(n)
        lg.addHandler(logging.NullHandler())
        lg.propagate = False


quiet()


OUT_NAMES = ['y0', 'y1', 'y2', 'Y', 'prev', 'b2', 'Mort', 'z_9', 'inc', 'A0', 'out']


class Comb:
    """most values fail: only narrow bands of a parameter can be simulated"""
    def __init__(self, k, width, share):
        self.k, self.width, self.share = k, width, share

    def ev(self, env):
        return float(env[self.k] / self.width % 1.0 > self.share)

    def src(self):
        return 'bands(%s, %r, %r)' % (self.k, self.width, self.share)


class RecModel(DataModel):
    """y_k = f_k(parameters) (+ noise); simulations beyond a cut fail (infinite output)"""
    def __init__(self, net, bn, data, outs, exo=None, fail=None, noise=0.0, budget=100000):
        self.Net, self.Outs, self.Fail, self.Noise, self.Budget = net, outs, fail, noise, budget
        self.calls, self.Grain = [], 0
        self.keep_calls, self.Tally = True, None
        DataModel.__init__(self, data, bn, exo)

    def outputs(self, pars):
        ys = {k: e.ev(pars) for k, e in self.Outs.items()}
        if self.Grain:
            ys = {k: math.floor(y / self.Grain) * self.Grain + self.Grain / 4 for k, y in ys.items()}
        if self.Fail is not None and self.Fail[0].ev(pars) > self.Fail[1]:
            ys = {k: self.Fail[2] for k in ys}
        return ys

    def simulate(self, pars):
        if len(self.calls) >= self.Budget:
            raise StepBudget('more than %d simulations' % self.Budget)
        if self.Tally:
            # counts over processes
            fd = os.open(self.Tally, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
            os.write(fd, b'.')
            os.close(fd)
        ys = self.outputs(pars)
        if self.Noise:
            ys = {k: y + float(np.random.normal(0, self.Noise)) for k, y in ys.items()}
        if self.keep_calls:
            self.calls.append((dict(pars), dict(ys), self.ref_distance(ys)))
        return Particle(pars, ys)

    def start_tally(self):
        fd, self.Tally = tempfile.mkstemp(prefix='tally-')
        os.close(fd)

    def tally(self):
        """simulations run in any process since the last request"""
        n = os.path.getsize(self.Tally)
        os.truncate(self.Tally, 0)
        return n

    def end_tally(self):
        os.remove(self.Tally)
        self.Tally = None

    def ref_distance(self, ys):
        return sum(ref_distance(self.Targets[k], ys[k]) for k in self.Data)


def ref_distance(t, y):
    """what the user declared -> distance of an output"""
    if t[0] == 'point':
        _, v, e = t
        return (y - v) ** 2 / (e * abs(v) / 2 / 1.96)
    if t[0] == 'range':
        _, m, l, u = t
        return (y - m) ** 2 / (u - l) * 2 * 1.96
    _, law, pv = t
    return -LAWS[law].logp(y, *[pv[p] for p, _ in LAWS[law].params]) if math.isfinite(y) else math.nan if math.isnan(y) else math.inf


def ref_moments(t):
    if t[0] == 'point':
        return t[1], (t[2] * abs(t[1]) / 2 / 1.96) ** 2
    if t[0] == 'range':
        return t[1], ((t[3] - t[2]) / 2 / 1.96) ** 2
    ps = [t[2][p] for p, _ in LAWS[t[1]].params]
    return LAWS[t[1]].mean(*ps), LAWS[t[1]].std(*ps) ** 2


def rand_model(r, n=None, laws=None, discrete=.2, kinds=('point', 'point', 'range', 'norm'), fails=False, noise=0.0, n_out=None,
               fix=.3, budget=100000, describe=None, keep=True, min_free=1, grain=0,
               comb=False, wide=False):
    """a random data model with a recorded, recomputable simulation"""
    laws = laws or ['norm', 'unif', 'gamma', 'exp', 'beta', 'lnorm', 'triangle']
    if r.random() < discrete:
        laws = laws + ['pois', 'binom']
    while True:
        net = rand_net(r, n or r.randint(2, 6), p_exo=.12, p_value=.2, p_rv=.45, laws=laws, simple=r.random() < .5, wide=wide)
        exo = exo_values(r, net)
        env = full_env(r, net)
        for k in sorted(net.nodes):
            if (net[k].kind == 'dist' and (k in net.rv_roots() or net[k].law in ('norm', 'gamma', 'exp', 'lnorm', 'beta'))
                    and r.random() < fix * .5):
                # (the support must not depend on what remains random)
                exo[k] = env[k]
        env = None
        free = [k for k in net.rv_roots() if k not in exo and not LAWS[net[k].law].integer]
        if len(free) >= min_free:
            break
    nodes = sorted(net.nodes)
    outs = {}
    for y in r.sample(OUT_NAMES, n_out or r.choice([1, 1, 2, 3])):
        use = r.sample(nodes, min(len(nodes), r.choice([1, 2, 3])))
        use = sorted(set(use) | {r.choice(sorted(free))})
        outs[y] = sensitive(r, use)
    bn = build(r, net, r.choice(['script', 'json', 'defs']), complete=True)
    how = r.choice(['bn', 'script', 'json'])
    arg = bn if how == 'bn' else (net.script() if how == 'script' else bn.to_json())
    # a plausible truth: one joint draw
    truth = ref_draw(r, net, exo)
    targets, src = {}, {}
    err = r.choice([0.1, 0.05, 0.3])
    for k, e in outs.items():
        y = e.ev(truth)
        if abs(y) < .05:
            y = .05
        kind = r.choice(kinds)
        if kind == 'point':
            v = round(y, 3) or .05
            e2 = r.choice([None, .2])
            targets[k] = ('point', v, e2 if e2 else err)
            src[k] = {'m': v, 'error': e2} if e2 else (v if r.random() < .6 else {'m': v})
        elif kind == 'range':
            m = round(y, 3)
            a, b = r.choice([.1, .5, 2]), r.choice([.1, .5, 2])
            targets[k] = ('range', m, m - a, m + b)
            src[k] = {'m': m, 'l': m - a, 'u': m + b}
        else:
            m, s = round(y, 3), r.choice([.5, 1.0, 2.0])
            targets[k] = ('norm', 'norm', {'mean': m, 'sd': s})
            src[k] = 'norm(%r, %r)' % (m, s)
    fail = None
    if fails:
        k = r.choice(sorted(free))
        from rtm.gen import Var
        vs = sorted(ref_draw(r, net, exo)[k] for _ in range(9))
        # a failing simulation has infinite or undefined outputs
        fail = (Var(k), vs[r.choice([4, 6])], r.choice([math.inf, math.nan]))
    if comb:
        k = r.choice(sorted(free))
        vs = sorted(ref_draw(r, net, exo)[k] for _ in range(15))
        fail = (Comb(k, max((vs[11] - vs[3]) / r.choice([2, 4]), 1e-3), r.choice([.1, .2])), .5, math.inf)
    data = read_targets(src, error=err)
    if r.random() < .3:
        # outputs without a target
        for y in r.sample([y for y in OUT_NAMES if y not in outs], r.choice([1, 2])):
            outs[y] = sensitive(r, [r.choice(nodes)])
        ks = list(outs)
        r.shuffle(ks)
        outs = {k: outs[k] for k in ks}
    RecModel.Targets = None
    m = RecModel.__new__(RecModel)
    m.Targets = targets
    RecModel.__init__(m, net, arg, data, outs, exo=exo if exo or r.random() < .5 else None, fail=fail, noise=noise, budget=budget)
    m.Free = set(free)
    m.Exo0 = dict(exo)
    m.keep_calls = keep
    m.Grain = grain
    if describe is not None:
        describe(script=net.script(), exo=exo, outs={k: e.src() for k, e in outs.items()}, targets=src,
                 fail=str((fail[0].src(),) + fail[1:]) if fail else None, how=how)
    return m


DRAW = {'norm': lambda r, p: r.gauss(p['mean'], p['sd']), 'unif': lambda r, p: r.uniform(p['min'], p['max']),
        'gamma': lambda r, p: r.gammavariate(p['shape'], 1 / p['rate']), 'exp': lambda r, p: r.expovariate(p['rate']),
        'beta': lambda r, p: r.betavariate(p['shape1'], p['shape2']),
        'lnorm': lambda r, p: math.exp(r.gauss(math.exp(p['meanlog']), math.exp(p['sdlog'])))}


def ref_draw(r, net, given):
    env = dict(given)
    for k in net.order:
        if k in env:
            continue
        n = net[k]
        e = n.expected(env)
        if e is None:
            pv = n.param_values(env)
            e = DRAW[n.law](r, pv) if n.law in DRAW else draw_value(r, n.law, pv)
        env[k] = e
    return env


def ref_logprob(net, env):
    return total_logp(net, env)


def check_pars(ctx, model, p, what, prior=True):
    """the parameters are a full, consistent assignment with the exogenous values"""
    env = dict(p)
    net = model.Net
    ctx.expect(set(env) >= set(net.nodes), '%s lack variables' % what, missing=sorted(set(net.nodes) - set(env)))
    for k, v in model.Exo0.items():
        ctx.expect(env[k] == v, '%s do not keep the exogenous value' % what, variable=k, got=env[k], expected=v)
    for k, n in net.nodes.items():
        if k in model.Exo0:
            continue
        e = n.expected(env)
        if e is not None:
            ctx.close(env[k], e, '%s are inconsistent' % what, variable=k, definition=n.src, values=env)
        elif n.kind == 'dist' and prior:
            lo, hi = n.support(env)
            ctx.expect(lo <= env[k] <= hi, '%s are outside their prior' % what, variable=k, value=env[k], values=env)


def pars_key(p):
    return tuple(sorted((k, float(v)) for k, v in dict(p).items()))
