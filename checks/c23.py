"""C23: a data model serves, draws and judges parameters."""
import math
from rtm.core import same
from rtm.bnlib import draw_value, through_text
from rtm.dists import LAWS
from rtm.models import check_pars, rand_model, ref_distance, ref_logprob
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.base import DataModel, Particle
from sims_pars.fit.targets import read_targets

ID = 'C23'
RULE = ('random models (network as object, script or JSON; random exogenous and fixed variables; random targets); random '
        'requests to serve, draw, evaluate, simulate and measure, compared with reference densities and distances; '
        'distinct by script, exogenous values and request')


def serving(ctx):
    r = ctx.rng
    m = rand_model(r, laws=['norm', 'unif', 'gamma', 'exp', 'beta', 'lnorm', 'triangle', 'pois', 'binom'], describe=ctx.describe,
                   **(dict(n=r.randint(36, 60), n_out=2, wide=True, fix=.1) if r.random() < .03 else {}))
    ctx.count('many free parameters', len(m.Free) > 16)
    net = m.Net
    exo = dict(m.Exo0)
    ctx.expect(dict(m.ExoParameters) == exo, 'exogenous parameters')
    ctx.expect(set(m.FreeParameters) == m.Free and len(m.FreeParameters) == len(m.Free), 'free parameters',
               got=sorted(m.FreeParameters), expected=sorted(m.Free))
    # the domain
    for _ in range(2):
        doms = m.Domain
        ctx.expect([d.Name for d in doms] == list(m.FreeParameters), 'the domain is not over the free parameters')
        env = dict(m.sample_prior())
        for d in doms:
            n = net[d.Name]
            pv = [n.param_values(env)[p] for p, _ in LAWS[n.law].params]
            lo, hi = n.support(env)
            for a, b, w in ((d.Lower, lo, 'lower bound'), (d.Upper, hi, 'upper bound'), (d.Location, LAWS[n.law].mean(*pv),
                            'location'), (d.Scale, LAWS[n.law].std(*pv), 'scale')):
                ctx.close(a, b, w + ' of a parameter', tol=1e-6, parameter=d.Name, definition=n.src)
    for _ in range(3):
        p = m.sample_prior()
        check_pars(ctx, m, p, 'prior draws')
        ctx.close(p.LogProb, ref_logprob(net, dict(p)), 'log density of a prior draw', tol=1e-6, values=dict(p))
        ctx.expect(p.is_evaluated() and m.evaluate_prior(p) == p.LogProb, 'evaluating a prior draw')
        q = Chromosome(dict(p))
        ctx.close(m.evaluate_prior(q), ref_logprob(net, dict(p)), 'log density on request', tol=1e-6)
        ctx.close(q.LogProb, ref_logprob(net, dict(p)), 'the log density is not kept', tol=1e-6)
    # serve
    for _ in range(4):
        base = dict(m.sample_prior())
        ks = r.sample(sorted(m.Free), r.randint(1, len(m.Free)))
        if r.random() < .3:
            ks = sorted(set(ks) | set(r.sample(sorted(net.nodes), 1)))
        ks = [k for k in ks if net[k].kind == 'dist']
        req = {k: base[k] for k in ks}
        if r.random() < .3:
            for k in m.Free & set(ks):
                lo, hi = net[k].support(base)
                if math.isfinite(hi):
                    req[k] = hi + 1.0
                elif math.isfinite(lo):
                    req[k] = lo - 1.0
                ctx.count('outside the prior')
                break
        if exo and r.random() < .4:
            req[r.choice(sorted(exo))] = 77.0
            ctx.count('exogenous requested')
        keep = dict(req)
        try:
            p = m.serve(req if r.random() < .5 else Chromosome(req))
        except Exception as e:
            # a child law may be undefined outside the prior
            if any(k in req and not (net[k].support(base)[0] <= req[k] <= net[k].support(base)[1]) for k in m.Free):
                ctx.count('undefined outside')
                continue
            raise
        ctx.nontrivial((net.script(), sorted(exo.items()), sorted(req.items())))
        ctx.expect(req == keep, 'serving changed the request', before=keep, after=req)
        env = dict(p)
        for k, v in req.items():
            ctx.expect(env[k] == exo.get(k, v), 'a requested value is not served', variable=k, got=env[k], requested=v)
        check_pars(ctx, m, p, 'served parameters', prior=False)
        e = ref_logprob(net, env)
        ctx.close(p.LogProb, e, 'log density of served parameters', tol=1e-6, values=env)
        if e == -math.inf:
            ctx.count('impossible')
        back = m.serve_from_json(through_text(p.to_json()))
        ctx.expect(dict(back) == dict(through_text(dict(env))) and (same(back.LogProb, p.LogProb, 1e-9)), 'serving from a record',
                   got=dict(back), expected=env)
    ctx.expect(dict(m.ExoParameters) == exo, 'exogenous parameters changed')


def measuring(ctx):
    r = ctx.rng
    kinds = r.choice([('point', 'range', 'norm'), ('norm',)])
    m = rand_model(r, kinds=kinds, describe=ctx.describe, noise=r.choice([0, .3]), n_out=r.randint(1, 4), fails=r.random() < .3)
    for _ in range(4):
        p = m.sample_prior()
        pt = m.simulate(p)
        ys = dict(pt.Sims)
        e = sum(ref_distance(m.Targets[k], ys[k]) for k in m.Data)
        ctx.nontrivial((m.Net.script(), sorted(ys.items())))
        if r.random() < .5:
            m.flatten(pt)
        ctx.close(m.calc_distance(pt), e, 'distance', tol=1e-6, outputs=ys)
        ctx.close(m.calc_distance(pt), e, 'distance on the second reading', tol=1e-6)
        ctx.close(pt['distance'], e, 'the distance is not kept', tol=1e-6)
        if kinds == ('norm',):
            ctx.close(m.calc_likelihood(pt), -e, 'log likelihood', tol=1e-6, outputs=ys)
            ctx.close(m.calc_likelihood(pt), -e, 'log likelihood on the second reading', tol=1e-6)
        elif any(t[0] != 'norm' for t in m.Targets.values()):
            ctx.raises(AttributeError, lambda: m.calc_likelihood(m.simulate(p)), 'targets without laws have a likelihood')
        ctx.expect(pt['Ys'] == {k: ys[k] for k in m.Data}, 'outputs for the targets', got=pt['Ys'], sims=ys)
        ctx.expect(list(pt['Xs']) == [p[k] for k in m.FreeParameters], 'the point of a particle', got=pt['Xs'])
        # another particle is not judged by the first one's distance
        q = pt.copy()
        ctx.expect(q['Xs'] == pt['Xs'] and q['Ys'] == pt['Ys'] and dict(q.Pars) == dict(p) and dict(q.Sims) == ys and
                   'distance' not in q.Notes, 'copy of a particle')
        ctx.close(m.calc_distance(q), e, 'distance of a copy', tol=1e-6)
        q.Pars[m.FreeParameters[0]] = -99.0
        ctx.expect(p[m.FreeParameters[0]] != -99.0, 'a copy shares its parameters')
        for far in (1.0, r.choice([-1, 1]) * 10.0 ** r.randint(1, 7)):
            z = Particle(p, {k: v + far for k, v in ys.items()})
            ctx.close(m.calc_distance(z), sum(ref_distance(m.Targets[k], ys[k] + far) for k in m.Data), 'distance of other outputs',
                      tol=1e-6, offset=far)


class Plain(DataModel):
    def simulate(self, pars):
        return Particle(pars, {'y': pars['a'] + pars['b']})


def scales(ctx):
    """free parameters of any size: very large (whole numbers), very small, narrow around a large value"""
    r = ctx.rng
    lines, ref = [], {}
    for k in ('a', 'b', 'c'):
        s = 10.0 ** r.choice([-14, -9, -3, 3, 9, 16, 20, 120])
        lo, hi = round(r.uniform(1, 5), 2) * s, round(r.uniform(6, 9), 2) * s
        law = r.choice(['unif', 'norm', 'exp', 'gamma', 'triangle'])
        src = {'unif': 'unif(%r, %r)' % (lo, hi), 'norm': 'norm(%r, %r)' % (lo, hi), 'exp': 'exp(%r)' % (1 / lo),
               'gamma': 'gamma(%r, %r)' % (3.0, 1 / hi), 'triangle': 'triangle(%r, %r, %r)' % (lo, hi, (lo + hi) / 2)}[law]
        lines.append('%s ~ %s' % (k, src))
        ref[k] = (law, lo, hi, s)
    lines.append('n ~ pois(%d)' % r.choice([3, 10 ** 6]))
    lines.append('k = 4.0')
    r.shuffle(lines)
    m = Plain(read_targets({'y': 1.0}), 'PCore S {\n%s\n}' % '\n'.join(lines))
    ctx.describe(lines=lines)
    ctx.nontrivial(lines)
    ctx.expect(set(m.FreeParameters) == set('abc'), 'free parameters of any size', got=list(m.FreeParameters))
    for d in m.Domain:
        law, lo, hi, s = ref[d.Name]
        L, U = {'unif': (lo, hi), 'triangle': (lo, hi), 'norm': (-math.inf, math.inf)}.get(law, (0, math.inf))
        ctx.expect(same(d.Lower, L, 0) or abs(d.Lower - L) < 1e-9 * s, 'lower bound of a parameter', got=d.Lower, expected=L)
        ctx.expect(same(d.Upper, U, 0) or abs(d.Upper - U) < 1e-9 * s, 'upper bound of a parameter', got=d.Upper, expected=U)
        mean, std = {'unif': ((lo + hi) / 2, (hi - lo) / 12 ** .5), 'norm': (lo, hi), 'exp': (lo, lo), 'gamma': (3 * hi, 3 ** .5 * hi),
                     'triangle': ((lo + hi) / 2, (hi - lo) / 24 ** .5)}[law]
        ctx.expect(abs(d.Location - mean) < 1e-6 * s * 10 and abs(d.Scale - std) < 1e-6 * s * 10, 'location and spread of a parameter',
                   got=(d.Location, d.Scale), expected=(mean, std), law=law)
    for _ in range(3):
        p = m.sample_prior()
        x = {k: p[k] for k in 'abc'}
        q = m.serve(x)
        ctx.expect({k: q[k] for k in 'abc'} == x, 'served values of any size', got=dict(q), requested=x)
        y = m.simulate(q)
        m.flatten(y)
        ctx.expect(sorted(y['Xs']) == sorted(x.values()), 'the point of a particle', got=y['Xs'], expected=x)


WORKLOADS = [('serving', serving, 700, 16000), ('measuring', measuring, 500, 12000), ('scales', scales, 150, 3000)]
FLOOR = {'serving': 300, 'measuring': 200, 'scales': 60, 'exogenous requested': 10}
