"""C33: stochastic results are reproducible under the seed of numpy, and only under it."""
import random
import numpy as np
import pandas as pd
from rtm.bnlib import build
from rtm.dists import LAWS
from rtm.gen import rand_net, exo_values, plain_params, call_src, LAWNAMES
from rtm.hier import World, visible
from rtm.models import rand_model
from sims_pars import sample, sample_chromosome, get_all_fixed_sc, parse_distribution, bayes_net_from_script
from sims_pars.data import (ConditionalProbabilityTable, TransitionMatrix, TimeSeriesProbabilityTable, LinearRegression,
                            LogisticRegression, PoissonRegression, MultinomialLogisticRegression, CoxRegression,
                            ZeroInflatedCoxRegression)
from sims_pars.fit.abcom import ApproxBayesCom
from sims_pars.fit.abc_smc import ApproxBayesComSMC
from sims_pars.fit.ga.mutate import get_mutator
from sims_pars.util import resample

ID = 'C33'
RULE = ('random networks, hierarchies and models; every stochastic operation is run twice from the same state of the random '
        'generator, and again without resetting it; distinct by script and operation')
ASSUMPTIONS = ['the same objects are used for both runs, in the same process (the order of unrelated variables depends on the hash seed); '
               'the history-matching surrogates draw from their own generator and are not claimed']


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


def reproducible(ctx, f, what, free=True, varied=True):
    """f: a stochastic operation -> a comparable result"""
    r = ctx.rng
    seed = r.randrange(2 ** 31)
    np.random.seed(seed)
    s0 = state()
    a = f()
    after = state()
    for other in (1, 2):
        # the generator of the standard library is not a source
        random.seed(other)
        np.random.seed(seed)
        b = f()
        ctx.expect(a == b, '%s is not reproducible under a seed' % what, first=a, second=b)
        ctx.expect(state() == after, '%s does not leave the same state of the generator' % what)
    ctx.count('repeats', 2)
    if free:
        ctx.expect(after != s0, '%s did not use the generator' % what)
        cs = [f() for _ in range(3)] if varied else []
        ctx.expect(not cs or any(c != a for c in cs), '%s is always the same' % what, result=a)
    else:
        ctx.expect(after == s0, '%s used the generator' % what)
        ctx.expect(f() == a, '%s differs without anything random' % what)


def flat(x):
    if isinstance(x, dict):
        return sorted((k, flat(v)) for k, v in x.items())
    return x.item() if hasattr(x, 'item') else x


def continuous(net, cond=()):
    from rtm.dists import LAWS
    return any(n.kind == 'dist' and not LAWS[n.law].integer and k not in cond for k, n in net.nodes.items())


def networks(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([2, 4, 8, 12]))
    bn = build(r, net)
    cond = exo_values(r, net)
    ctx.describe(script=net.script(), condition=cond)
    free = any(net.is_rv(k) and net[k].kind == 'dist' for k in net.nodes)
    cont = continuous(net)
    ctx.nontrivial(net.script())
    if free and not cont:
        return
    reproducible(ctx, lambda: flat(dict(sample(bn, cond))), 'a sample', free)

    def chrom():
        c = sample_chromosome(bn, cond)
        return flat(dict(c)), flat(c.LogProb)
    reproducible(ctx, chrom, 'a chromosome', free)


def values(pc, deep=True):
    out = [pc.Nickname, pc.Group, flat(dict(pc.Locus)), flat(pc.LogPrior)]
    for k in sorted(pc.Children or {}):
        out.append(values(pc.Children[k]))
    return out


def hierarchies(ctx):
    r = ctx.rng
    w = World(r, deterministic=False)
    ctx.describe(**w.describe())
    net = w.net
    if not continuous(net):
        return
    ctx.nontrivial((net.script(), w.groups.text()))
    ss = []
    for pc in w.cores:
        ss += [s for k, s in sorted(pc.get_samplers(True).items())]
    for pc in w.cores:
        for k, s in sorted(pc.get_samplers(False).items()):
            if net.is_rv(k) and continuous(net, set(net.nodes) - {k}):
                reproducible(ctx, lambda: [flat(s()), flat(s.sample(3))], 'a draw from a sampler')
                ctx.count('samplers')

    def shock():
        ks = [k for k in w.root.Locus if k in net.nodes and net[k].kind == 'dist']
        w.root.impulse({k: None for k in sorted(ks)})
        return values(w.root)
    ks = [k for k in w.root.Locus if k in net.nodes and net[k].kind == 'dist']
    if ks and continuous(net, set(net.nodes) - set(ks)):
        # an impulse changes the state it starts from: start from the same values
        start = {k: flat(v) for k, v in w.root.Locus.items() if k in net.nodes}

        def twice():
            w.root.impulse({k: start[k] for k in ks})
            return shock()
        reproducible(ctx, twice, 'a shock')
        ctx.count('shocks')


def generation(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([2, 4, 7]))
    bn = build(r, net, complete=True)
    sc = get_all_fixed_sc(net.script())
    exo = exo_values(r, net)
    ctx.describe(script=net.script(), exo=exo)
    ctx.nontrivial(net.script())
    if not continuous(net):
        return
    reproducible(ctx, lambda: values(sc.generate('p', exo=exo)), 'a generated core')
    # what is bred from a core, and prototypes
    w = World(r, deterministic=False)
    for pc in w.cores:
        for g in w.group[pc.Group].children:
            if any(w.net[k].kind == 'dist' and not LAWS[w.net[k].law].integer for k in pc.get_prototype(g.name).Locus
                   if k in w.net.nodes and k not in visible(pc)):
                reproducible(ctx, lambda: values(pc.get_prototype(g.name)), 'a prototype')
                kids = []

                def bred():
                    kids.append(pc.breed('kid_%s_%d' % (g.name, len(kids)), g.name))
                    return values(kids[-1])[1:]
                reproducible(ctx, bred, 'a child')
                ctx.count('bred')


def fits(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 3), fails=r.random() < .2, noise=r.choice([0, .2]), discrete=0, describe=ctx.describe,
                   budget=10 ** 6, keep=False)
    ctx.nontrivial((m.Net.script(), str(m.Targets)))
    which = r.choice(['prior', 'abc', 'smc'])
    n = r.choice([3, 6])
    p0s = None
    if m.Fail is None and r.random() < .5:    # (from parents which always fail there is no start)
        k = r.choice(sorted(m.Free))
        p0s = [{k: m.sample_prior()[k]} for _ in range(4)]

    def parts(post):
        return [(flat(dict(p.Pars)), flat(p.Pars.LogProb), flat(dict(p.Sims))) for p in post.Particles]

    def run():
        if which == 'prior':
            return [flat(dict(m.sample_prior())) for _ in range(n)]
        if which == 'abc':
            alg = ApproxBayesCom(parallel=False, n_test=8, p_test=.5)
            alg.fit(m)
            return parts(alg.sample_posteriors(n))
        alg = ApproxBayesComSMC(parallel=False, n_iter=8, max_round=2, alpha=.8)
        if p0s is not None:
            alg.set_parents([dict(p) for p in p0s])
        try:
            alg.fit(m)
        except AssertionError:
            return 'too few survivors'
        return parts(alg.sample_posteriors(n))
    reproducible(ctx, run, 'a fit' if which != 'prior' else 'a prior draw')
    ctx.count(which)


class Obj:
    Domain = []


def tools(ctx):
    r = ctx.rng
    k = r.randint(5, 30)
    w = [r.gauss(0, 1) for _ in range(k)]
    hs = [{'v': i} for i in range(k)]
    ctx.nontrivial(str(w))

    def res():
        out, mean = resample(np.array(w), hs, new_size=r2, log=True)
        return [h['v'] for h in out], flat(mean)
    r2 = r.randint(10, 20)
    reproducible(ctx, res, 'resampling')
    from sims_pars.fit.base import Domain
    o = Obj()
    o.Domain = [Domain('a', 'Double', -5, 5), Domain('b', 'Double', 0, 10)]
    pop = [{'a': r.uniform(-5, 5), 'b': r.uniform(0, 10)} for _ in range(12)]
    mu = get_mutator('rw')
    mu.set_scales(pop, o)
    reproducible(ctx, lambda: flat(mu.propose(pop[0], o)), 'a mutation')


def laws(ctx):
    """every law, alone and in a network, categorical ones included"""
    r = ctx.rng
    law = r.choice(LAWNAMES + ['cat', 'cat'])
    if law == 'cat':
        ks = r.sample(['a', 'b', 'c', 'dd'], r.randint(2, 4))
        src = 'cat({%s})' % ', '.join("'%s': %s" % (k, round(r.uniform(.5, 2), 2)) for k in ks)
        wide = True
    else:
        pv = plain_params(r, law)
        src, eff = call_src(r, law, pv)
        wide = LAWS[law].std(*[eff[p].ev({}) for p, _ in LAWS[law].params]) > (.5 if LAWS[law].integer else 0)
    ctx.describe(law=src)
    ctx.nontrivial(src)
    d = parse_distribution(src)
    num = lambda x: [flat(v) for v in np.ravel(x)]
    if law == 'const':
        return
    n = r.choice([1, 3, 40])
    reproducible(ctx, lambda: num([d.sample() for _ in range(n)]), 'a draw', varied=wide and n > 3)
    reproducible(ctx, lambda: num(d.sample(40)), 'a batch of draws', varied=wide)
    bn = bayes_net_from_script('PCore A {\n x ~ %s\n}' % src)
    reproducible(ctx, lambda: [flat(sample(bn)['x']) for _ in range(30)], 'a sample of a network', varied=wide)
    ctx.count('laws')
    if law == 'cat':
        ctx.count('categories')


def datasets(ctx):
    """draws from tables, regressions and survival times"""
    r = ctx.rng
    w = [r.randint(2, 9) for _ in range(3)]
    cpt = ConditionalProbabilityTable(pd.DataFrame({'a': ['x', 'x', 'y'], 'b': [0, 1, 0], 'p': [v / sum(w) for v in w]}), ['a', 'b'], 'p')
    tm = TransitionMatrix(pd.DataFrame([[.4, .6], [.7, .3]], index=['S', 'T'], columns=['S', 'T']))
    tt = TimeSeriesProbabilityTable(pd.DataFrame({'t': [0, 1], 'u': [.4, .5], 'v': [.6, .5]}), 't', ['u', 'v'])
    reg = lambda: [{'Name': 'x', 'Type': 'Continuous', 'Value': round(r.uniform(-.5, .5), 2)}]
    base = r.choice([{'Type': 'exp', 'Rate': 1.5}, {'Type': 'weibull', 'Lambda': .7, 'K': 1.4},
                     {'Type': 'empirical', 'Time': [0, 1, 4], 'CumHaz': [0, .5, 2]}])
    xs = {'x': round(r.uniform(-1, 1), 2)}
    lin = LinearRegression({'Intercept': .2, 'SE': 1, 'Regressors': reg()})
    log = LogisticRegression({'Intercept': .2, 'Regressors': reg()})
    poi = PoissonRegression({'Intercept': 1, 'Regressors': reg()})
    mul = MultinomialLogisticRegression({'Intercepts': [0, .5], 'Regressions': [reg(), reg()], 'Labels': ['b', 'a']})
    cox = CoxRegression({'Baseline': base, 'Regressors': reg()})
    zic = ZeroInflatedCoxRegression({'PrZero': {'Intercept': 0, 'Regressors': reg()}, 'PrTTE': {'Baseline': base, 'Regressors': reg()}})
    ops = dict(table=lambda: cpt(), tables=lambda: cpt.sample(5), state=lambda: tm('S'), states=lambda: tm.sample(currents=['S', 'T'] * 3),
               times=lambda: tt(.7))
    for k, g in dict(linear=lin, logistic=log, Poisson=poi, multinomial=mul, Cox=cox, zero=zic).items():
        ops['%s prediction' % k] = lambda g=g: g.predict(xs)
        ops['%s sampler' % k] = lambda g=g: g.get_sampler(xs).sample(6)
    ks = r.sample(sorted(ops), 5)
    ctx.describe(operations=ks, covariates=xs, baseline=base)
    ctx.nontrivial((ks, sorted(xs.items()), base['Type'], w))
    for k in ks:
        reproducible(ctx, lambda: [deep(ops[k]()) for _ in range(25)], k)
        ctx.count('data draws')


def deep(x):
    if isinstance(x, dict):
        return sorted((str(k), deep(v)) for k, v in x.items())
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [deep(v) for v in x]
    return x.item() if hasattr(x, 'item') else x


WORKLOADS = [('networks', networks, 160, 6000), ('hierarchies', hierarchies, 120, 4000), ('generation', generation, 80, 3000),
             ('fits', fits, 32, 600), ('tools', tools, 40, 600), ('laws', laws, 120, 3000), ('data', datasets, 60, 2000)]
FLOOR = {'bred': 10, 'laws': 40, 'categories': 5, 'data draws': 60, 'networks': 60, 'hierarchies': 40, 'fits': 12, 'samplers': 20, 'shocks': 8, 'smc': 2, 'abc': 2}
