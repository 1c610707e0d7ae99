"""C21: conversions between parameters and the unit cube."""
import math
import numpy as np
from rtm.models import rand_model
from rtm.dists import LAWS
from sims_pars.fit.base import Domain
from sims_pars.fit.converter import get_converter

ID = 'C21'
RULE = ('random domains (bounded, half-bounded on either side, unbounded; from random models and stand-alone) and random '
        'points, including the ends; distinct by domain')


def judge(ctx, dom, lo, hi, scale, loc):
    r = ctx.rng
    cv = get_converter(dom)
    ctx.describe(lower=lo, upper=hi, loc=loc, scale=scale)
    ctx.nontrivial((lo, hi, loc, scale))
    us = sorted({r.random() for _ in range(12)} | {1e-6, .5, 1 - 1e-6, r.uniform(0, .01), r.uniform(.99, 1)})
    vs = [cv.uniform2value(u) for u in us]
    span = (hi - lo) if math.isfinite(hi - lo) else scale
    big = max([abs(x) for x in (lo, hi, loc) if math.isfinite(x)] + [1e-300])
    ulp = 1e-15 * max(abs(x) if math.isfinite(x) else 0 for x in (lo, hi))
    tol = 1e-7 + 1e-12 * big / span
    for u, v in zip(us, vs):
        ctx.expect(lo - ulp <= v <= hi + ulp and math.isfinite(v), 'a point of the unit cube leaves the domain', u=u, v=v, domain=str(dom))
        b = cv.value2uniform(v)
        ctx.expect(abs(b - u) <= tol, 'converting back does not return the point', u=u, v=v, back=b, domain=str(dom))
    ctx.expect(all(a < b for a, b in zip(vs, vs[1:])), 'the conversion is not increasing', us=us, vs=vs)
    # far out towards ends at infinity
    e = 10 ** r.uniform(-14, -7)
    if math.isinf(hi):
        v, w = cv.uniform2value(1 - e), cv.uniform2value(1 - e / 16)
        ctx.expect(math.isfinite(v) and w - v > scale, 'the far upper tail', tail=e, at=v, beyond=w, domain=str(dom))
        b = 1 - cv.value2uniform(v)
        ctx.expect(e / 1.5 - 2e-16 <= b <= e * 1.5 + 2e-16, 'converting back from the far upper tail', tail=e, back=b, domain=str(dom))
    if math.isinf(lo):
        v, w = cv.uniform2value(e), cv.uniform2value(e / 16)
        ctx.expect(math.isfinite(v) and v - w > scale, 'the far lower tail', tail=e, at=v, beyond=w, domain=str(dom))
        b = cv.value2uniform(v)
        ctx.expect(e / 1.5 - 2e-16 <= b <= e * 1.5 + 2e-16, 'converting back from the far lower tail', tail=e, back=b, domain=str(dom))
    # from values
    for _ in range(8):
        if math.isfinite(lo) and math.isfinite(hi):
            v = r.uniform(lo, hi)
        elif math.isfinite(lo):
            v = lo + r.expovariate(1) * scale
        elif math.isfinite(hi):
            v = hi - r.expovariate(1) * scale
        else:
            v = loc + r.gauss(0, 2) * scale
        u = cv.value2uniform(v)
        ctx.expect(0 <= u <= 1, 'a value of the domain leaves the unit cube', u=u, v=v, domain=str(dom))
        if 1e-6 < u < 1 - 1e-6:
            ctx.expect(abs(cv.uniform2value(u) - v) <= 1e-6 * (span + abs(v)), 'converting back does not return the value', v=v,
                       u=u, back=cv.uniform2value(u), domain=str(dom))
    ctx.expect(cv.uniform2value(0) == lo and (cv.uniform2value(1) == hi or math.isfinite(hi) and
               abs(cv.uniform2value(1) - hi) <= ulp), 'the ends of the unit interval',
               at0=cv.uniform2value(0), at1=cv.uniform2value(1), domain=str(dom))
    if math.isfinite(lo):
        ctx.expect(cv.value2uniform(lo) == 0, 'the lower end', domain=str(dom))
    if math.isfinite(hi):
        ctx.expect(cv.value2uniform(hi) == 1, 'the upper end', domain=str(dom))


def free_domains(ctx):
    r = ctx.rng
    kind = r.choice(['ff', 'fi', 'if', 'ii'])
    lo = -math.inf if kind[0] == 'i' else round(r.uniform(-20, 20), 2)
    hi = math.inf if kind[1] == 'i' else (lo if kind[0] == 'f' else r.uniform(-20, 20)) + r.choice([.01, 1, 7, 300, r.uniform(.1, 9)])
    scale = r.choice([1, .1, 20, r.uniform(.2, 5), 1e3])
    if r.random() < .15:
        # far out
        far = 10 ** r.uniform(5, 12)
        lo = lo if math.isinf(lo) else r.choice([-far, far, -far * 3])
        hi = hi if math.isinf(hi) else (lo if math.isfinite(lo) else r.choice([-far, far])) + far * r.choice([.5, 1, 2])
        scale = far * r.choice([1e-3, .1, 1])
        ctx.count('far out')
    loc = r.choice([0, 7, -3.5, r.uniform(-50, 50)])
    tp = np.float64 if r.random() < .3 else float
    kw = {}
    if kind[0] == 'f' or r.random() < .5:
        kw['lower'] = tp(lo)
    if kind[1] == 'f' or r.random() < .5:
        kw['upper'] = tp(hi)
    if loc or r.random() < .5:
        kw['loc'] = tp(loc)
    if scale != 1 or r.random() < .5:
        kw['scale'] = tp(scale)
    dom = Domain('x', 'float', **kw)
    ctx.count(kind)
    judge(ctx, dom, lo, hi, scale, loc)


def model_domains(ctx):
    r = ctx.rng
    m = rand_model(r)
    doms = {d.Name: d for d in m.Domain}
    for k, d in doms.items():
        n = m.Net[k]
        env = dict(m.sample_prior())
        pv = [n.param_values(env)[p] for p, _ in LAWS[n.law].params]
        L = LAWS[n.law]
        a, b = n.support(env)
        for got, e, w in ((d.Lower, a, 'lower bound'), (d.Upper, b, 'upper bound'), (d.Location, L.mean(*pv), 'location'),
                          (d.Scale, L.std(*pv), 'scale')):
            ctx.close(got, e, w + ' of the domain of a parameter', tol=1e-6, parameter=k, definition=n.src)
        judge(ctx, d, float(d.Lower), float(d.Upper), L.std(*pv), L.mean(*pv))


WORKLOADS = [('free', free_domains, 1500, 40000), ('models', model_domains, 400, 9000)]
FLOOR = {'free': 300, 'models': 100, 'ff': 50, 'fi': 50, 'if': 50, 'ii': 50}
