"""C31: weighted resampling."""
import math
import numpy as np
from rtm.dists import hoeffding
from sims_pars.util import resample

ID = 'C31'
RULE = ('random weights (log or plain, with impossible entries, ties and extreme ranges), companions and sizes; identities, '
        'pairing, frequencies and the mean weight are checked; distinct by weights')
ASSUMPTIONS = ['frequencies are judged by Hoeffding bounds with error probability below 1e-10 per comparison']


def weights(r, n, log):
    if log:
        sc = r.choice([1, 5, 300])
        off = r.choice([0, -1000, 800])
        w = [off + r.gauss(0, 1) * sc for _ in range(n)]
        dead = [i for i in range(n) if r.random() < .25]
        for i in dead[:n - 1]:
            w[i] = r.choice([-math.inf, -math.inf, float('nan')])
    else:
        w = [r.choice([r.uniform(0, 1), r.uniform(0, 1e-6), r.randint(1, 50), 0.0]) for _ in range(n)]
        if not any(w):
            w[0] = 1.0
        if n > 1 and w[0] > 0 and r.random() < .3:
            w[-1] = float('nan')
            if not any(x > 0 for x in w[:-1]):
                w[0] = 1.0
    return w


def drawing(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 5, 12]) if r.random() < .95 else r.choice([150, 310, 600])
    log = r.random() < .6
    w = weights(r, n, log)
    hs = ['h%d' % i for i in range(n)]
    pars = [dict(i=i) for i in range(n)] if r.random() < .5 else None
    size = r.choice([None, 1, n, 5, 300])
    ctx.describe(weights=w, log=log, size=size)
    ctx.nontrivial((w, log, size))
    arg = np.array(w) if r.random() < .3 else list(w)
    kw = {}
    if pars is not None:
        kw['pars'] = pars
    if not log or r.random() < .3:
        kw['log'] = log
    if size is not None:
        kw['new_size'] = size
    keep = list(arg)
    out = resample(arg, list(hs), **kw)
    ctx.expect(len(out) == (3 if pars is not None else 2), 'form of the result')
    got = out[0]
    m = size or n
    ctx.expect(len(got) == m, 'number of draws', got=len(got), expected=m)
    fin = [x for x in w if math.isfinite(x)]
    mx = max(fin)
    p = {h: (math.exp(x - mx) if log else x) if math.isfinite(x) else 0.0 for h, x in zip(hs, w)}
    tot = sum(p.values())
    p = {h: x / tot for h, x in p.items()}
    ctx.expect(all(p.get(h, 0) > 0 for h in got), 'something impossible was drawn', drawn=[h for h in got if not p.get(h, 0) > 0])
    if pars is not None:
        ctx.expect(all(q is pars[hs.index(h)] for h, q in zip(got, out[1])), 'companions were not drawn together')
    for h in hs:
        ctx.expect(abs(got.count(h) / m - p[h]) < hoeffding(m), 'frequency of a draw', item=h, got=got.count(h) / m, expected=p[h])
    if size is None:
        lse = (mx + math.log(sum(math.exp(x - mx) for x in fin))) if log else math.log(sum(fin))
        ctx.close(out[-1], lse - math.log(n), 'log of the mean weight', tol=1e-9, weights=w)
    ctx.expect(all((a == b) or (a != a and b != b) for a, b in zip(list(arg), keep)), 'resampling changed the weights')


def few(ctx):
    """a few items drawn again and again: draws are independent of each other"""
    r = ctx.rng
    n = r.choice([2, 3, 6, 12, 30])
    k = r.choice([1, 2, 3, 5])
    log = r.random() < .5
    w = [r.choice([1, r.uniform(.1, 3), 10, 100]) for _ in range(n)]
    if r.random() < .4:
        w = [1.0] * n
    dead = [i for i in range(1, n) if r.random() < .2]
    w = [0.0 if i in dead else x for i, x in enumerate(w)]
    tot = sum(w)
    p = [x / tot for x in w]
    arg = [math.log(x) if x else -math.inf for x in w] if log else w
    ctx.describe(weights=w, log=log, size=k)
    ctx.nontrivial((w, log, k))
    m = 250
    runs = [resample(arg, list(range(n)), log=log, new_size=k)[0] for _ in range(m)]
    ctx.expect(all(len(x) == k for x in runs), 'number of draws')
    for j in range(k):
        for i in range(n):
            got = sum(x[j] == i for x in runs) / m
            ctx.expect(abs(got - p[i]) < hoeffding(m), 'frequency of an item among few draws', item=i, place=j, got=got, expected=p[i])
    same = sum(q * q for q in p)
    for j in range(k):
        for i in range(j):
            got = sum(x[i] == x[j] for x in runs) / m
            ctx.expect(abs(got - same) < hoeffding(m), 'two draws depend on each other', places=(i, j), got=got, expected=same)
            got = sum(x[i] < x[j] for x in runs) / m
            ctx.expect(abs(got - (1 - same) / 2) < hoeffding(m), 'draws come in order', places=(i, j), got=got)


WORKLOADS = [('drawing', drawing, 2500, 60000), ('few', few, 120, 3000)]
FLOOR = {'drawing': 800, 'few': 40}
