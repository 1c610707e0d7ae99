"""C32: operators of the genetic algorithm."""
import math
import numpy as np
from rtm.dists import hoeffding, ks_stat, ks_critical
from rtm.models import rand_model
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.base import Domain
from sims_pars.fit.ga.cross import get_crossover
from sims_pars.fit.ga.mutate import get_mutator
from sims_pars.fit.ga.select import get_selector
import scipy.special as sc

ID = 'C32'
RULE = ('random domains (bounded, half-bounded, unbounded) and populations with impossible members and ties, through every '
        'crossover, mutation and selection operator; distinct by population')
ASSUMPTIONS = ['populations are objects carrying parameters, a log prior and a log likelihood; the engine itself depends on modules '
               'which are not part of the package any more and is not run',
               'random choices are judged by bounds with error probability below 1e-10']


class Obj:
    def __init__(self, doms):
        self.Domain = doms


class Ind(Chromosome):
    def __init__(self, vs, li=0.0, pr=0.0, src=None):
        Chromosome.__init__(self, vs, pr)
        self.LogLikelihood, self.LogPrior, self.Source = li, pr, src

    @property
    def LogPosterior(self):
        return self.LogPrior + self.LogLikelihood

    def clone(self):
        return Ind(self.Locus, self.LogLikelihood, self.LogPrior, self.Source)


def rand_domain(r):
    doms = []
    for k in r.sample(list('abcxydefghij'), r.randint(1, 4) if r.random() < .75 else r.randint(5, 11)):
        lo = -math.inf if r.random() < .4 else round(r.uniform(-5, 5), 2)
        hi = math.inf if r.random() < .4 else (lo if math.isfinite(lo) else 0) + round(r.uniform(.5, 9), 2)
        doms.append(Domain(k, 'Double', lo, hi))
    return doms


def value(r, d):
    if math.isfinite(d.Lower) and math.isfinite(d.Upper):
        return r.uniform(d.Lower, d.Upper)
    if math.isfinite(d.Lower):
        return d.Lower + r.expovariate(1)
    if math.isfinite(d.Upper):
        return d.Upper - r.expovariate(1)
    return r.gauss(0, 3)


def person(r, doms, **kw):
    vs = {d.Name: value(r, d) for d in doms}
    vs['extra'] = 7.0
    return Ind(vs, **kw)


def crossover(ctx):
    r = ctx.rng
    doms = rand_domain(r)
    obj = Obj(doms)
    p1, p2 = person(r, doms), person(r, doms)
    a, b = dict(p1), dict(p2)
    ctx.describe(p1=a, p2=b)
    ctx.nontrivial((sorted(a.items()), sorted(b.items())))
    names = {d.Name for d in doms}
    c1, c2 = get_crossover(r.choice(['average', 'average()'])).crossover(p1, p2, obj)
    ctx.expect(set(c1) == set(c2) == names and c1 is not c2, 'variables of an offspring', got=(set(c1), set(c2)))
    for k in names:
        ctx.close(c1[k], (a[k] + b[k]) / 2, 'average of the parents', variable=k)
        ctx.close(c2[k], (a[k] + b[k]) / 2, 'average of the parents', variable=k)
    n, swap = 150, {k: 0 for k in names}
    cr = get_crossover('shuffle')
    pairs = [(i, j) for i in sorted(names) for j in sorted(names) if i < j]
    both = {q: 0 for q in pairs}
    for _ in range(n):
        c1, c2 = cr.crossover(p1, p2, obj)
        ctx.expect(set(c1) == set(c2) == names, 'variables of an offspring')
        for k in names:
            ctx.expect((c1[k], c2[k]) in ((a[k], b[k]), (b[k], a[k])), 'a value of the parents was lost', variable=k, got=(c1[k], c2[k]))
            swap[k] += c1[k] == b[k]
        for i, j in pairs:
            both[i, j] += (c1[i] == b[i]) == (c1[j] == b[j])
    for q, c in both.items():
        ctx.expect(abs(c / n - .5) < hoeffding(n), 'variables are not exchanged one by one', pair=q, got=c / n)
    for k in names:
        ctx.expect(abs(swap[k] / n - .5) < hoeffding(n), 'values are not exchanged evenly', variable=k, got=swap[k] / n)
    ctx.expect(dict(p1) == a and dict(p2) == b, 'crossover changed the parents')


def mutation(ctx):
    r = ctx.rng
    doms = rand_domain(r)
    obj = Obj(doms)
    n = r.choice([5, 12, 40])
    pop = [person(r, doms) for _ in range(n)]
    same_k = None
    if r.random() < .4:                       # a few members far away
        d = r.choice(doms)
        for p in r.sample(pop, max(1, n // 10)):
            far = 10.0 ** r.choice([2, 4, 6])
            if math.isinf(d.Upper):
                p[d.Name] = (d.Lower if math.isfinite(d.Lower) else 0) + far
            elif math.isinf(d.Lower):
                p[d.Name] = d.Upper - far
        ctx.count('populations with outliers')
    if r.random() < .3:
        # a dyadic number, so that the spread is exactly zero rather than a rounding error
        same_k, d = doms[0].Name, doms[0]
        v = math.ceil(d.Lower * 4 + 1e-9) / 4 if math.isfinite(d.Lower) else math.floor(min(d.Upper, 3) * 4 - 1e-9) / 4
        for p in pop:
            p[same_k] = v
    elif r.random() < .2:
        # most of the population agrees, a few differ: no spread between the quartiles
        d = r.choice(doms)
        v = value(r, d)
        for p in r.sample(pop, n - max(1, n // 8)):
            p[d.Name] = v
        ctx.count('populations mostly agreeing')
    mu = get_mutator('rw')
    mu.set_scales(pop, obj)
    before = [dict(p) for p in pop]
    ctx.describe(domain=[str(d) for d in doms], population=before[:3])
    ctx.nontrivial([sorted(b.items()) for b in before])
    eps = np.finfo(float).eps
    for d in doms:
        s = mu.Scales[d.Name]
        xs = np.array([b[d.Name] for b in before])
        ctx.expect(math.isfinite(s) and s > 0, 'scale of a mutation', variable=d.Name, scale=s)
        q = np.percentile(xs, 75) - np.percentile(xs, 25)
        sp = q / 1.34 if q > 0 else (xs.std() if xs.std() > 0 else .1)
        ctx.close(s, .9 * sp * n ** -.2, 'scale of a mutation', tol=1e-6, variable=d.Name)
    p = r.choice(pop)
    zs = {d.Name: [] for d in doms}
    for _ in range(120):
        c = mu.propose(p, obj)
        ctx.expect(set(c) == {d.Name for d in doms}, 'variables of a mutant', got=sorted(c))
        for d in doms:
            lo = d.Lower + eps if math.isfinite(d.Lower) else -math.inf
            hi = d.Upper - eps if math.isfinite(d.Upper) else math.inf
            ctx.expect(lo <= c[d.Name] <= hi, 'a mutant left the domain', variable=d.Name, value=c[d.Name], domain=str(d))
            zs[d.Name].append((c[d.Name] - p[d.Name]) / mu.Scales[d.Name])
    for i, j in [(i, j) for i in range(len(doms)) for j in range(i)]:
        u, v = zs[doms[i].Name], zs[doms[j].Name]
        for g in (1, -1):
            ctx.expect(len({round(x - g * y, 9) for x, y in zip(u, v)}) > len(u) / 4 or len(set(u)) < 10 or len(set(v)) < 10,
                       'variables are moved by the same draw', variables=(doms[i].Name, doms[j].Name))
    for d in doms:
        m = len(zs[d.Name])
        # clipping only moves mass to the ends: compare strictly inside
        inside = [z for z in zs[d.Name]]
        lo = (d.Lower - p[d.Name]) / mu.Scales[d.Name]
        hi = (d.Upper - p[d.Name]) / mu.Scales[d.Name]
        dev = 0
        for z in sorted(inside):
            if lo + 1e-6 < z < hi - 1e-6:
                dev = max(dev, abs(sum(x <= z for x in inside) / m - sc.ndtr(z)) - 1 / m)
        ctx.expect(dev < ks_critical(m), 'mutants are not a random walk around the original', variable=d.Name, deviation=dev)
    ctx.expect([dict(p) for p in pop] == before, 'mutation changed the population')


def selection(ctx):
    r = ctx.rng
    doms = rand_domain(r)
    obj = Obj(doms)
    n = r.choice([8, 12, 20]) if r.random() < .9 else r.choice([110, 160, 260])
    pop = []
    for i in range(n):
        li = r.choice([r.gauss(0, 2), r.gauss(-800, 3) if r.random() < .1 else r.gauss(0, 1), round(r.gauss(0, 1))])
        pop.append(person(r, doms, li=li, pr=r.gauss(0, 1), src=i))
    for p in pop[:r.randint(0, n - 7)]:
        p.LogLikelihood = r.choice([-math.inf, float('nan')])
    r.shuffle(pop)
    fit = r.choice(['MAP', 'MLE'])
    val = (lambda p: p.LogPosterior) if fit == 'MAP' else (lambda p: p.LogLikelihood)
    alive = [p for p in pop if math.isfinite(p.LogLikelihood)]
    before = [(dict(p), p.LogLikelihood, p.LogPrior) for p in pop]
    k = r.choice([1, 2, 3, 5])
    if k >= len(alive):
        k = 2
    how = r.choice(['tour', 'tour(%d)' % k, 'tour(k)', 'importance'])
    if how == 'tour':
        k = 3
    if how == 'tour(k)':
        how = 'tour(K=%d)' % k
    ctx.describe(selection=how, fitness=[(p.LogLikelihood, p.LogPrior) for p in pop], target=fit)
    ctx.nontrivial((how, [val(p) for p in pop]))
    sel = get_selector(how)
    got = []
    reps = 20
    for _ in range(reps):
        out = sel.select(list(pop), obj, fitness=fit) if fit != 'MAP' or r.random() < .5 else sel.select(list(pop), obj)
        ctx.expect(len(out) == n, 'size of the selection', got=len(out), expected=n)
        got += out
    src = {p.Source: p for p in pop}
    rank = sorted(alive, key=val)
    cut = val(rank[k - 1])
    for q in got:
        p = src[q.Source]
        ctx.expect(math.isfinite(p.LogLikelihood), 'an impossible member was selected')
        ctx.expect(dict(q) == dict(p) and q.LogLikelihood == p.LogLikelihood, 'a selected member differs from its original')
        ctx.expect(q is not p, 'a selected member is not a copy')
        if how.startswith('tour'):
            # the best of k different members beats k - 1 others
            ctx.expect(val(p) >= cut, 'a tournament was won by one of the worst', value=val(p), cut=cut, k=k)
    m = len(got)
    if how == 'importance':
        mx = max(val(p) for p in alive)
        w = {p.Source: math.exp(val(p) - mx) for p in alive}
        t = sum(w.values())
        pr = {s: x / t for s, x in w.items()}
    else:
        # probability that the best of k out of N ranks is this one; ties are broken by order of drawing: compare by value
        N = len(alive)
        pr = {}
        for i, p in enumerate(rank):
            pr[p.Source] = math.comb(i, k - 1) / math.comb(N, k)
    by, exp = {}, {}
    for q in got:
        by[val(q)] = by.get(val(q), 0) + 1 / m
    for s, x in pr.items():
        exp[val(src[s])] = exp.get(val(src[s]), 0) + x
    for v, x in exp.items():
        ctx.expect(abs(by.get(v, 0) - x) < hoeffding(m), 'frequency of selection', value=v, got=by.get(v, 0), expected=x)
    # wherever a member stands in the population: members of the same value are alike
    share = {}
    for s, x in pr.items():
        share.setdefault(val(src[s]), []).append(x)
    place = {q.Source: i for i, q in enumerate(pop)}
    for cut in (n // 3, n // 2, 2 * n // 3):
        e = sum(sum(share[val(p)]) / len(share[val(p)]) for p in pop[:cut] if p.Source in pr)
        g = sum(place[q.Source] < cut for q in got) / m
        ctx.expect(abs(g - e) < hoeffding(m), 'selection depends on the place in the population', cut=cut, got=g, expected=e)
    ctx.expect([(dict(p), p.LogPrior) for p in pop] == [(b[0], b[2]) for b in before], 'selection changed the population')


def refused(ctx):
    r = ctx.rng
    doms = rand_domain(r)
    pop = [person(r, doms, li=-math.inf) for _ in range(8)]
    for p in pop[:r.randint(0, 3)]:
        p.LogLikelihood = 0.0
    ctx.nontrivial([p.LogLikelihood for p in pop])
    how = r.choice(['importance', 'tour(3)', 'tour(5)'])
    ctx.raises(AssertionError, lambda: get_selector(how).select(pop, Obj(doms)), 'selected from too few possible members')
    ctx.raises(ValueError, lambda: get_selector('tour(%d)' % r.choice([0, -1])), 'an invalid tournament')
    ctx.raises(KeyError, lambda: r.choice([get_selector, get_mutator, get_crossover])('unknown'), 'an unknown operator')


WORKLOADS = [('crossover', crossover, 150, 4000), ('mutation', mutation, 200, 5000), ('selection', selection, 240, 6000),
             ('refused', refused, 40, 300)]
FLOOR = {'crossover': 60, 'mutation': 80, 'selection': 80, 'refused': 2}
