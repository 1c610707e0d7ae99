"""C22: targets and distances."""
import math
import numpy as np
from rtm.core import same
from rtm.bnlib import draw_value
from rtm.dists import LAWS
from rtm.gen import plain_params, call_src, LAWNAMES
from rtm.models import ref_distance, ref_moments
from sims_pars.fit.targets import read_targets, AbsData

ID = 'C22'
RULE = ('random sets of targets in every documented format (number, m/error, m/l/u, distribution, ready-made), read with '
        'random error levels and compared with a reference at random outputs; distinct by source')


def rand_target(r, err):
    kind = r.choice(['number', 'int', 'm', 'error', 'range', 'dist', 'dist'])
    v = r.choice([round(r.uniform(-50, 50), 3) or 1.0, round(r.uniform(-1, 1), 4) or .5])
    if kind == 'number':
        return v, ('point', v, err)
    if kind == 'int':
        v = r.choice([-7, 3, 12, 400])
        return v, ('point', v, err)
    if kind == 'm':
        return {'m': v}, ('point', v, err)
    if kind == 'error':
        e = r.choice([.01, .25, 1.5])
        return {'m': v, 'error': e}, ('point', v, e)
    if kind == 'range':
        l, u = v - r.uniform(.01, 5), v + r.uniform(.01, 5)
        d = {'m': v, 'l': l, 'u': u}
        if r.random() < .3:
            d['error'] = .5
        ks = list(d)
        r.shuffle(ks)
        return {k: d[k] for k in ks}, ('range', v, l, u)
    law = r.choice(LAWNAMES)
    src, eff = call_src(r, law, plain_params(r, law))
    return src, ('dist', law, {k: e.ev({}) for k, e in eff.items()})


def targets(ctx):
    r = ctx.rng
    n = r.randint(1, 5)
    default = r.random() < .3
    err = .1 if default else r.choice([.05, .1, .5, 1])
    src, ref = {}, {}
    names = r.sample(['x', 'y', 'T1', 'Inc_2', 'prev', 'z9'], n)
    for k in names:
        src[k], ref[k] = rand_target(r, err)
    keep = {k: (dict(v) if isinstance(v, dict) else v) for k, v in src.items()}
    ts = read_targets(src) if default else read_targets(src, error=err)
    ctx.describe(targets=src, error=err)
    ctx.nontrivial((sorted(map(str, src.items())), err))
    ctx.expect(src == keep, 'reading targets changed the source')
    ctx.expect(list(ts) == names, 'names of the targets', got=list(ts), expected=names)
    again = read_targets(ts)
    ctx.expect(all(again[k] is ts[k] for k in ts), 'ready-made targets are not kept')
    mk = lambda: {k: value(r, ref[k]) for k in names}
    for _ in range(4):
        sim = dict(mk(), other=3.0)
        s0 = dict(sim)
        for k in names:
            t, d = ts[k], ref[k]
            ctx.expect(isinstance(t, AbsData) and t.Name == k, 'a target has another name', target=k)
            got = t.calc_distance(sim)
            ctx.close(got, ref_distance(d, sim[k]), 'distance', tol=1e-6, target=k, source=src[k], output=sim[k])
            if d[0] == 'dist':
                ctx.close(t.calc_likelihood(sim), -ref_distance(d, sim[k]), 'log likelihood', tol=1e-6, target=k, source=src[k])
            else:
                ctx.raises(AttributeError, lambda: t.calc_likelihood(sim), 'a target without a law has a likelihood')
                m = d[1]
                ctx.expect(t.calc_distance({k: m}) == 0, 'the distance of the target itself is not 0', target=k)
                a = r.uniform(.001, 3)
                near, far = t.calc_distance({k: m + a}), t.calc_distance({k: m + 1.5 * a})
                ctx.expect(0 < near < far, 'the distance does not grow with the deviation', target=k)
                ctx.close(near, t.calc_distance({k: m - a}), 'the distance is not symmetric', tol=1e-6)
        ctx.expect(sim == s0, 'a distance changed the outputs')
    for k in names:
        m, v = ref_moments(ref[k])
        e = ts[k].ev()
        ctx.close(e[0], m, 'expected value of a target', tol=1e-6, target=k, source=src[k])
        ctx.close(e[1], v, 'variance of a target', tol=1e-6, target=k, source=src[k])
        ctx.close(ts[k].get_var_obs(), v, 'variance of a target', tol=1e-6, target=k)
        ctx.close(ts[k].Value, m, 'value of a target', tol=1e-6, target=k)
        e2 = ts[k].ev()
        ctx.expect(same(e[0], e2[0], 0) and same(e[1], e2[1], 0), 'moments change on the second reading')
        ctx.expect(k in str(ts[k]), 'text of a target')


def value(r, d):
    if d[0] == 'dist':
        if r.random() < .85:
            return draw_value(r, d[1], d[2])
        return -1.0 if LAWS[d[1]].support(*[d[2][p] for p, _ in LAWS[d[1]].params])[0] == 0 else draw_value(r, d[1], d[2])
    return r.choice([d[1], d[1] + r.gauss(0, 1), r.uniform(-60, 60), np.float64(d[1] * 1.01)])


def rejected(ctx):
    r = ctx.rng
    good, _ = rand_target(r, .1)
    bad = r.choice([{'l': 1, 'u': 2}, {'error': .1}, {}, [1, 2], None, {'m': 1, 'l': 2, 'u': 3}, {'m': 4, 'l': 2, 'u': 3},
                    {'m': 1, 'l': 1, 'u': 3}, {'m': 3, 'l': 1, 'u': 3}, {'m': 2, 'l': 3, 'u': 1}, (1,), object()])
    ctx.describe(bad=str(bad))
    ctx.nontrivial(str(bad) if not type(bad) is object else 'object')
    src = {'g': good, 'b': bad}
    ctx.raises((ValueError, AssertionError), lambda: read_targets(src), 'a malformed target was accepted', source=str(bad))


def scales(ctx):
    """outputs and targets of any scale are measured in their own units"""
    r = ctx.rng
    s = 10.0 ** r.choice([-15, -12, -9, -6, 6, 9, 12])
    m, sd = s * round(r.uniform(1, 9), 2), s * round(r.uniform(.1, 2), 2)
    src = {'n': 'norm(%r, %r)' % (m, sd), 'u': 'unif(%r, %r)' % (m, m + 4 * sd), 'e': 'exp(%r)' % (1 / m), 'p': m,
           'w': {'m': m, 'l': m - sd, 'u': m + 2 * sd}}
    ref = {'n': ('dist', 'norm', {'mean': m, 'sd': sd}), 'u': ('dist', 'unif', {'min': m, 'max': m + 4 * sd}),
           'e': ('dist', 'exp', {'rate': 1 / m}), 'p': ('point', m, .1), 'w': ('range', m, m - sd, m + 2 * sd)}
    ts = read_targets(src)
    ctx.describe(targets=src)
    ctx.nontrivial(sorted(map(str, src.items())))
    for _ in range(6):
        x = m + sd * r.choice([r.gauss(0, 1), r.uniform(0, 4), 0.0])
        for k in src:
            got, want = ts[k].calc_distance({k: x}), ref_distance(ref[k], x)
            ctx.expect(same(got, want, 0) or abs(got - want) <= 1e-6 * max(abs(want), 1e-300) + (1e-9 if ref[k][0] == 'dist' else 0),
                       'distance at another scale', target=k, source=src[k], output=x, got=got, expected=want)
    for k in src:
        a, v = ref_moments(ref[k])
        e = ts[k].ev()
        ctx.expect(abs(e[0] - a) <= 1e-6 * abs(a) and abs(e[1] - v) <= 1e-6 * v, 'moments at another scale', target=k, got=e,
                   expected=(a, v))


WORKLOADS = [('targets', targets, 900, 25000), ('rejected', rejected, 150, 600), ('scales', scales, 120, 2000)]
FLOOR = {'targets': 300, 'rejected': 8, 'scales': 60}
