"""C04: parameters outside the domain of a law."""
import math
from rtm.dists import LAWS
from rtm.bnlib import build, full_env, draw_value
from rtm.gen import Net, Node, Num, Var, Bin, call_src, plain_params, rand_net, rand_names, param_exprs
from sims_pars import parse_distribution, evaluate_nodes, sample, sample_minimally
from sims_pars.bayesnet import parse_loci

ID = 'C04'
RULE = ('laws with one parameter outside its domain, given as a constant or reached through a parent; distinct by source '
        'text and offending value')

POS = ('gamma', 'shape'), ('gamma', 'rate'), ('exp', 'rate'), ('lnorm', 'sdlog'), ('chisq', 'df'), ('beta', 'shape1'), \
      ('beta', 'shape2'), ('invgamma', 'rate'), ('norm', 'sd'), ('pois', 'lam')
NAN = float('nan')
BAD = {k: lambda r: r.choice([0, 0.0, -0.0, -1, -round(r.uniform(0.001, 9), 3), -1e-9, -1e-12, -1e-300, -1e300, NAN]) for k in POS}
BAD['lnorm', 'meanlog'] = lambda r: r.choice([-1, -round(r.uniform(0.001, 9), 3), -1e-9, -1e-12, -1e-300])
BAD['invgamma', 'a'] = lambda r: r.choice([2, 1.999, 2 - 1e-12, 0, -3, round(r.uniform(-5, 2), 3)])
BAD['binom', 'size'] = lambda r: r.choice([0, -1, -7, 2.5, 0.5, 1 + 1e-9, 3 - 1e-9, -2 ** 40])
BAD['binom', 'prob'] = lambda r: r.choice([-0.001, 1.001, 2, -1, -1e-12, 1 + 1e-12, -1e-10, 1 + 1e-10, 1 + 1e-6, -1e-300, 1e300, round(r.uniform(1.001, 9), 3)])
BAD['unif', 'max'] = lambda r: r.choice([-1e3, -round(r.uniform(200, 900), 2), -1e300, NAN])
BAD['unif', 'min'] = lambda r: r.choice([1e3, round(r.uniform(200, 900), 2), 1e300, NAN])
KEYS = sorted(BAD)


def rejected(ctx):
    r = ctx.rng
    law, p = KEYS[ctx.index % len(KEYS)]
    ps = plain_params(r, law)
    bad = BAD[law, p](r)
    loc = {}
    ps[p] = Num(bad)
    if bad != bad or r.random() < .5:
        c = r.randint(1, 9)
        if r.random() < .5 or p == 'size' or bad != bad:
            loc, ps[p] = {'q': bad}, Var('q')
        else:
            loc, ps[p] = {'q': bad - c}, Bin('+', Var('q'), Num(c))
            if ps[p].ev(loc) != bad:
                loc, ps[p] = {'q': bad}, Var('q')
    src, _ = call_src(r, law, ps, may_default=False)
    ctx.describe(source=src, loc=loc)
    ctx.nontrivial((law, p, bad, bool(loc)))
    ctx.raises(ValueError, lambda: parse_distribution(src, loc=loc), 'built with an invalid parameter', source=src, loc=loc)
    l, _ = parse_loci('out ~ ' + src)
    ctx.raises(ValueError, lambda: l.render(loc), 'drew from a law with an invalid parameter', source=src, loc=loc)
    v = r.choice([1, 0.5, 2, 0])
    got = l.evaluate({'out': v, **loc})
    ctx.expect(got == -math.inf, 'log density under invalid parameters is not -inf', source=src, loc=loc, got=got)


def networks(ctx):
    """one invalid variable makes the whole configuration impossible"""
    r = ctx.rng
    base = rand_net(r, r.randint(2, 7), des=False)
    law, p = KEYS[ctx.index % len(KEYS)]
    bad = BAD[law, p](r)
    ps = plain_params(r, law)
    ps[p] = Var('q_bad')
    src, eff = call_src(r, law, ps, may_default=False)
    nodes = [n for n in base.nodes.values()] + [Node('q_bad', 'exo'), Node('out_v', 'dist', law=law, params=eff, src=src)]
    net = Net('N', nodes)
    bn = build(r, net)
    env = full_env(r, base)
    env['q_bad'] = bad
    env['out_v'] = r.choice([1, 0.5, 2])
    ctx.describe(script=net.script(), bad=bad)
    ctx.nontrivial((net.script(), bad))
    got = evaluate_nodes(bn, env)
    ctx.expect(got == -math.inf, 'an impossible configuration has a finite log density', got=got, law=src, bad=bad)
    ctx.raises(ValueError, lambda: sample(bn, cond={k: env[k] for k in net.exo}), 'a network drew under an invalid parameter',
               law=src, bad=bad)
    ctx.raises(ValueError, lambda: sample_minimally(bn, ['out_v'], cond={k: env[k] for k in net.exo}),
               'a network drew under an invalid parameter', law=src, bad=bad)
    ctx.expect(evaluate_nodes(bn, {k: v for k, v in env.items() if k != 'out_v'}) > -math.inf,
               'the configuration is impossible without its invalid variable', script=net.script(), env=env)


def histories(ctx):
    """one variable or network asked again and again, under valid parameters and under one or more invalid ones"""
    r = ctx.rng
    law = r.choice(sorted({l for l, _ in KEYS}))
    names = [p for p, _ in LAWS[law].params]
    ps = plain_params(r, law)
    good = {'q_' + p: ps[p].ev({}) for p in names}
    src = '%s(%s)' % (law, ', '.join('%s=q_%s' % (p, p) for p in names))
    l, _ = parse_loci('out ~ ' + src)
    bn = build(r, Net('H', [Node('q_' + p, 'exo') for p in names] +
                      [Node('out', 'dist', law=law, params={p: Var('q_' + p) for p in names}, src=src)]))
    log = []
    for _ in range(r.randint(3, 7)):
        loc = dict(good)
        wrong = r.sample(names, r.choice([0, 0, 1, min(2, len(names)), len(names)]))
        for p in wrong:
            loc['q_' + p] = BAD[law, p](r) if (law, p) in BAD else good['q_' + p]
        wrong = [p for p in wrong if (law, p) in BAD]
        log.append(loc)
        x = draw_value(r, law, {p: loc['q_' + p] for p in names}) if not wrong else r.choice([1, .5, 2])
        for what, f in (('a variable', l.evaluate), ('a network', lambda vs: evaluate_nodes(bn, vs)),
                        ('a variable of a network', lambda vs: bn['out'].evaluate(vs))):
            got = f({**loc, 'out': x})
            if wrong:
                ctx.expect(got == -math.inf, 'log density of %s under invalid parameters is not -inf' % what, law=src,
                           history=log, got=got)
            else:
                ctx.close(got, LAWS[law].logp(x, *[loc['q_' + p] for p in names]), 'log density of %s under valid parameters' % what,
                          tol=1e-6, law=src, history=log, value=x)
        tries = [lambda: l.render(dict(loc)), lambda: l.fill(dict(loc)), lambda: l(dict(loc)), lambda: l.get_distribution(loc),
                 lambda: bn['out'].render(dict(loc)), lambda: sample(bn, cond=loc), lambda: sample_minimally(bn, ['out'], cond=loc),
                 lambda: parse_distribution(src, loc=loc)]
        for f in tries:
            if wrong:
                ctx.raises(ValueError, f, 'drew under invalid parameters', law=src, history=log)
            else:
                f()
        ctx.count('invalid' if wrong else 'valid')
    ctx.describe(law=src, history=log)
    ctx.nontrivial((src, log))


def ranges(ctx):
    """the ends of a uniform range, swapped by however little"""
    r = ctx.rng
    a = r.choice([0, 1, -1, round(r.uniform(-50, 50), 3)])
    gap = r.choice([1, .5, 1e-3, 1e-9, round(r.uniform(.001, 60), 3)])
    lo, hi = a, a + gap
    ctx.expect(lo < hi, 'harness')
    for x, y, ok in ((lo, hi, True), (hi, lo, False)):
        loc, args = {}, []
        for k, v in (('lo_q', x), ('hi_q', y)):
            if r.random() < .5:
                loc[k] = v
                args.append(k)
            else:
                args.append(repr(v))
        src = r.choice(['unif(%s, %s)', 'unif(min=%s, max=%s)', 'unif(%s, max=%s)']) % tuple(args)
        l, _ = parse_loci('out ~ ' + src)
        ctx.nontrivial((src, repr(loc)))
        mid = (lo + hi) / 2
        got = l.evaluate({'out': mid, **loc})
        if ok:
            ctx.close(got, -math.log(hi - lo), 'log density of a uniform', tol=1e-6, source=src, loc=loc)
            ctx.expect(lo <= l.render(dict(loc)) <= hi, 'a draw is outside the range', source=src, loc=loc)
        else:
            ctx.expect(got == -math.inf, 'log density of an empty range is not -inf', source=src, loc=loc, got=got)
            ctx.raises(ValueError, lambda: parse_distribution(src, loc=loc), 'built with an empty range', source=src, loc=loc)
            ctx.raises(ValueError, lambda: l.render(dict(loc)), 'drew from an empty range', source=src, loc=loc)


def edges(ctx):
    """values on the border of the domain are accepted"""
    r = ctx.rng
    src = r.choice(['lnorm(meanlog=0, sdlog=%r)' % round(r.uniform(.01, 2), 3), 'binom(size=1, prob=0)',
                    'binom(size=%d, prob=1)' % r.randint(1, 9), 'binom(3, prob=0.0)', 'norm(0, 1e-9)', 'gamma(1e-3, 1e-3)',
                    'invgamma(2.0001, 1)', 'exp(1e-6)', 'binom(size=%d.0, prob=0.5)' % r.randint(1, 9)])
    d = parse_distribution(src)
    ctx.describe(source=src)
    ctx.nontrivial(src)
    lo, hi = d.Interval
    x = d.sample()
    ctx.expect(lo <= x <= hi, 'a draw is outside the support', source=src, got=x)


def categories(ctx):
    """weights of categories: none negative, undefined or infinite, and a positive total"""
    r = ctx.rng
    names = rand_names(r, r.randint(1, 5))
    k = len(names)
    kind = r.choice(['negative', 'negative', 'all negative', 'zero', 'nan', 'inf', 'none', 'good', 'good'])
    ws = [r.choice([r.randint(1, 500), round(r.uniform(.001, 3), 3)]) for _ in names]
    at = r.randrange(k)
    if kind == 'negative':
        ws[at] = -r.choice([1, 1e-9, 1e-300, round(r.uniform(.001, 9), 3), 1e6])
    elif kind == 'all negative':
        ws = [-w for w in ws]
    elif kind == 'zero':
        ws = [r.choice([0, 0.0, -0.0])] * k
    elif kind in ('nan', 'inf'):
        ws[at] = float(kind)
    elif kind == 'none':
        names, ws = [], []
    elif k > 1 and r.random() < .5:
        ws[at] = 0
    loc, cells = {}, []
    for i, (c, w) in enumerate(zip(names, ws)):
        if w != w or abs(w) == math.inf or r.random() < .4:
            loc['w_%d' % i] = w
            cells.append('%r: w_%d' % (c, i))
        else:
            cells.append('%r: %r' % (c, w))
    src = r.choice(['cat({%s})', 'cat(kv={%s})']) % ', '.join(cells)
    ctx.describe(source=src, loc=loc)
    ctx.nontrivial((src, repr(loc)))
    ctx.count(kind)
    l, _ = parse_loci('out ~ ' + src)
    bn = build(r, Net('K', [Node(n, 'exo') for n in loc] +
                      [Node('out', 'dist', law='cat', params={'kv': Num(0)}, src=src)])) if names and not loc else None
    if kind == 'good':
        d = parse_distribution(src, loc=loc)
        total = sum(ws)
        for c, w in zip(names, ws):
            got = l.evaluate({'out': c, **loc})
            want = math.log(w / total) if w else -math.inf
            ctx.close(got, want, 'log density of a category', category=c, source=src, loc=loc)
            ctx.close(d.logpdf(c), want, 'log density of a category', category=c, source=src, loc=loc)
        for _ in range(5):
            x = l.render(dict(loc))
            ctx.expect(x in names and ws[names.index(x)] > 0, 'drew a category of no weight', got=x, source=src, loc=loc)
        return
    ctx.raises(ValueError, lambda: parse_distribution(src, loc=loc), 'built with invalid weights', source=src, loc=loc)
    for f in (lambda: l.render(dict(loc)), lambda: l.fill(dict(loc)), lambda: l.get_distribution(loc)):
        ctx.raises(ValueError, f, 'drew under invalid weights', source=src, loc=loc)
    for c in names or ['x']:
        got = l.evaluate({'out': c, **loc})
        ctx.expect(got == -math.inf, 'log density under invalid weights is not -inf', category=c, got=got, source=src, loc=loc)
    if bn is not None:
        ctx.raises(ValueError, lambda: sample(bn), 'a network drew under invalid weights', source=src)
        ctx.expect(evaluate_nodes(bn, {'out': names[0]}) == -math.inf, 'an impossible configuration has a finite log density', source=src)


WORKLOADS = [('rejected', rejected, 1200, 20000), ('networks', networks, 300, 6000), ('histories', histories, 240, 5000), ('categories', categories, 300, 6000), ('ranges', ranges, 160, 2000), ('edges', edges, 80, 500)]
FLOOR = {'ranges': 60, 'categories': 60, 'rejected': 80, 'networks': 60, 'histories': 60, 'edges': 5}
