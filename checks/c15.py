"""C15: data sets as sources of randomness and time-varying inputs; nodes backed by data functions."""
import math
import numpy as np
import pandas as pd
from rtm.core import same
from rtm.dists import hoeffding, ks_stat, ks_critical, LAWS
from rtm.bnlib import through_text
from sims_pars import add_data_func, bayes_net_from_script, bayes_net_from_json, sample, evaluate_nodes, NodeSet, as_simulation_core
from sims_pars.data import (TransitionMatrix, ConditionalProbabilityTable, TimeSeries, TimeSeriesVector,
                            TimeSeriesProbabilityTable, LeeCarter, LinearRegression, LogisticRegression, PoissonRegression,
                            MultinomialLogisticRegression, CoxRegression, ZeroInflatedCoxRegression)

ID = 'C15'
RULE = ('random tables, series and regression-backed variables; distinct by their content; tables with at least two rows '
        'are non-trivial')


def weights(r, n):
    w = [r.choice([0, 0, r.random(), r.randint(1, 5)]) for _ in range(n)]
    w[r.randrange(n)] += 1
    return w


def transitions(ctx):
    r = ctx.rng
    st = r.sample(r.choice([['S', 'I', 'R', 'D', 'E', 'V'], ['S', 'I', 'R', 'D', 'E', 'V'], [0, 1, 2, 3, 10, 12]]), r.randint(2, 5))
    to = list(st)
    r.shuffle(to)
    w = {a: weights(r, len(to)) for a in st}
    if r.random() < .4:
        for a in st:
            w[a] = [0] * len(to)
            w[a][r.randrange(len(to))] = 1
    df = pd.DataFrame([w[a] for a in st], index=st, columns=to)
    before = df.copy()
    m = TransitionMatrix(df)
    ctx.describe(matrix=before.to_dict())
    ctx.nontrivial(before.to_dict())
    p = {a: {b: x / sum(w[a]) for b, x in zip(to, w[a])} for a in st}
    ctx.expect(m.StateFrom == st and m.StateTo == to, 'states of the matrix', got=(m.StateFrom, m.StateTo))
    for a in st:
        for b in to:
            want = math.log(p[a][b]) if p[a][b] > 0 else -math.inf
            ctx.close(m[a].logpdf(b), want, 'transition probability', source=a, target=b)
        n = 120
        xs = m.sample(n, current=a)
        ctx.expect(len(xs) == n, 'number of transitions', got=len(xs))
        xs = list(xs) + [m(a), m.sample_next(a), m.sample(1, current=a)]
        for b in xs:
            ctx.expect(b in to and p[a][b] > 0, 'an impossible transition', source=a, target=b)
        for b in to:
            ctx.expect(abs(xs.count(b) / len(xs) - p[a][b]) < hoeffding(len(xs)), 'frequency of a transition', source=a,
                       target=b, got=xs.count(b) / len(xs), expected=p[a][b])
    cur = [r.choice(st) for _ in range(40 * len(st))]
    nx = m.sample(currents=cur)
    ctx.expect(len(nx) == len(cur), 'transitions of a population', got=len(nx))
    for a, b in zip(cur, nx):
        ctx.expect(p[a][b] > 0, 'an impossible transition in a population', source=a, target=b)
    for a in st:                              # each member moves on its own
        xs = [y for x, y in zip(cur, nx) if x == a]
        for b in to:
            if len(xs) > 15:
                ctx.expect(abs(xs.count(b) / len(xs) - p[a][b]) < hoeffding(len(xs)), 'frequency of a transition in a population',
                           source=a, target=b, got=xs.count(b) / len(xs), expected=p[a][b])
    a = max(st, key=lambda s: -max(p[s].values()))        # the most uncertain state
    same = sum(q * q for q in p[a].values())
    for pairs, what in ((m.sample(240, current=a), 'one batch'), (m.sample(currents=[a] * 240), 'a population in one state'),
                        ([y for _ in range(120) for y in m.sample(currents=[a, a])], 'two members in one state'),
                        ([y for _ in range(120) for y in m.sample(2, current=a)], 'a batch of two')):
        pairs = list(pairs)
        got = sum(x == y for x, y in zip(pairs[::2], pairs[1::2])) / 120
        ctx.expect(len(pairs) == 240 and abs(got - same) < hoeffding(120), 'transitions of %s depend on each other' % what, source=a,
                   got=got, expected=same)
    k = r.choice([3, 8, 20])                  # no two members of a population move together
    runs = [list(m.sample(currents=[a] * k)) for _ in range(100)]
    for i in range(k):
        for j in range(i):
            got = sum(x[i] == x[j] for x in runs) / 100
            ctx.expect(abs(got - same) < hoeffding(100), 'two members of a population move together', source=a, members=(j, i), of=k,
                       got=got, expected=same)
    ctx.raises(KeyError, lambda: m['unknown'], 'an unknown state')
    ctx.expect(df.equals(before), 'the source table was changed')


def levels(r):
    x = r.random()
    if x < .3:
        return r.sample([0, 1, 2, 3, 10], r.randint(2, 3))
    if x < .4:
        return [True, False]
    if x < .5:
        return r.sample([0.0, 0.5, 1.5], 2)
    if x < .6:
        return r.sample(['', 'a', 'b c'], r.randint(2, 3))
    if x < .8:
        return r.sample(['a', 'a:b', 'b', ':', "b'", 'b:c', 'c'], r.randint(2, 4))
    if x < .85:
        return r.sample([1, '1', 2, '2'], r.randint(2, 4))
    return r.sample(['a', 'b', 'c', 'd'], r.randint(2, 3))


def tables(ctx):
    r = ctx.rng
    idx = r.sample(['Sex', 'Age', 'Area'], r.randint(2, 3))
    lev = {i: levels(r) for i in idx}
    if r.random() < .35:                      # one attribute with many levels
        lev[r.choice(idx)] = r.choice([[str(i) for i in range(1, 13)], ['A', 'AB', 'ABC', 'B', 'BA', 'C', 'CA', 'D', 'E', 'F'],
                                       list(range(15, 80, 5))])
        ctx.count('tables with many levels')
    rows = [()]
    for i in idx:
        rows = [x + (v,) for x in rows for v in lev[i]]
    r.shuffle(rows)
    rows = rows[:max(2, r.randint(len(rows) // 2, len(rows)))]
    if r.random() < .3:                       # the same attributes in several rows
        rows += [r.choice(rows) for _ in range(r.randint(1, 3))]
        r.shuffle(rows)
    w = weights(r, len(rows))
    df = pd.DataFrame([dict(zip(idx, x), Prob=float(p)) for x, p in zip(rows, w)])
    before = df.copy()
    t = ConditionalProbabilityTable(df, idx, 'Prob')
    ctx.describe(table=before.to_dict('records'))
    ctx.nontrivial(before.to_dict('records'))
    p = {}
    for x, v in zip(rows, w):
        p[x] = p.get(x, 0) + v / sum(w)

    def agree(t, ix, p, what):
        ctx.expect(list(t.Indices) == ix, what + ': indices', got=t.Indices, expected=ix)
        groups, law = getattr(t, 'Groups', None), getattr(t, 'Sampler', None)
        if isinstance(groups, dict) and law is not None:    # exact probabilities where the table shows them
            ctx.expect(len(groups) == len(p), what + ': number of rows', got=len(groups), expected=len(p))
            for key, row in groups.items():
                v = p[tuple(row[i] for i in ix)]
                ctx.close(law.logpdf(key), math.log(v) if v > 0 else -math.inf, what + ': probability', row=row)
        for xs in ([t() for _ in range(60)] + [t.sample()], t.sample(60)):
            ctx.expect(len(xs) in (60, 61), what + ': number of draws', got=len(xs))
            cnt = {}
            for d in xs:
                k = tuple(d[i] for i in ix)
                ctx.expect(set(d) == set(ix) and p.get(k, 0) > 0, what + ': an impossible row', got=d)
                cnt[k] = cnt.get(k, 0) + 1
            for x, v in p.items():
                ctx.expect(abs(cnt.get(x, 0) / len(xs) - v) < hoeffding(len(xs)), what + ': frequency', row=x)

    agree(t, idx, p, 'table')
    i = r.choice(idx)
    j = idx.index(i)
    rest = [x for x in idx if x != i]
    q = {}
    for x, v in p.items():
        k = x[:j] + x[j + 1:]
        q[k] = q.get(k, 0) + v
    agree(t.marginalise(i), rest, q, 'marginalised table')
    lv = sorted({x[j] for x, v in p.items() if v > 0}, key=repr)
    c = r.choice(lv)
    def given(p, ix, cond):
        q = {}
        for x, v in p.items():
            if all(x[ix.index(a)] == b for a, b in cond.items()):
                k = tuple(y for a, y in zip(ix, x) if a not in cond)
                q[k] = q.get(k, 0) + v
        tot = sum(q.values())
        return {k: v / tot for k, v in q.items()}

    q1 = given(p, idx, {i: c})
    agree(t.condition(**{i: c}), rest, q1, 'conditioned table')
    for k in idx:
        if len(lev[k]) > 4:                   # every level in turn
            j = idx.index(k)
            for v in sorted({x[j] for x, u in p.items() if u > 0}, key=repr):
                agree(t.condition(**{k: v}), [x for x in idx if x != k], given(p, idx, {k: v}), 'table given one of many levels')
    if len(idx) == 3:
        k = r.choice(rest)
        last = [x for x in rest if x != k]
        v = r.choice(sorted({x[rest.index(k)] for x, v in q1.items() if v > 0}, key=repr))
        q2 = given(p, idx, {i: c, k: v})
        agree(t.condition(**{i: c, k: v}), last, q2, 'table conditioned on two attributes')
        agree(t.condition(**{k: v}).condition(**{i: c}), last, q2, 'table conditioned twice')
        m = {}
        for x, u in q1.items():
            y = tuple(b for a, b in zip(rest, x) if a != k)
            m[y] = m.get(y, 0) + u
        agree(t.condition(**{i: c}).marginalise(k), last, m, 'table conditioned and marginalised')
        agree(t.marginalise(k).condition(**{i: c}), last, m, 'table marginalised and conditioned')
        ctx.count('chained queries')
    agree(t, idx, p, 'table after queries')
    ctx.expect(df.equals(before), 'the source table was changed')


def series(ctx):
    r = ctx.rng
    n = r.randint(2, 8) if r.random() < .8 else r.randint(9, 60)
    ts = sorted(r.sample(range(1990, 2030 if n < 9 else 2100), n))
    if r.random() < .3:
        ts = [float(t) + round(r.uniform(0, .4), 2) for t in ts]
    elif r.random() < .2:
        # days or hours as fractions
        c = r.choice([1000.0, 365.25, 8766.0])
        ts = [(t - 1990) / c for t in ts]
        ctx.count('close times')
    xs = [round(r.uniform(-5, 5), 3) for _ in ts]
    ys = [round(r.uniform(-5, 5), 3) for _ in ts]
    df = pd.DataFrame({'Time': ts, 'X': xs, 'Y': ys})
    if r.random() < .4:                       # rows in any order
        df = df.sample(frac=1, random_state=r.randrange(10 ** 6))
        if r.random() < .5:
            df = df.reset_index(drop=True)
        ctx.count('series out of order')
    before = df.copy()
    kind = r.choice(['nearest', 'linear', 'default', 'previous', 'next'])
    kw = {} if kind == 'default' else {'kind': kind}
    a = TimeSeries(df, 'Time', 'X', **kw)
    b = TimeSeriesVector(df, 'Time', ['X', 'Y'], **kw)
    names = ['A', 'B', 'C']
    hot = [r.randrange(3) for _ in ts]
    pt = pd.DataFrame([dict({k: float(k == names[h]) for k in names}, Time=t) for t, h in zip(ts, hot)])
    if r.random() < .4:
        pt = pt.sample(frac=1, random_state=r.randrange(10 ** 6))
    c = TimeSeriesProbabilityTable(pt, 'Time', names)
    ages = r.sample(range(0, 90, 5), 4)
    al = {g: round(r.uniform(-3, 0), 3) for g in ages}
    be = {g: round(r.uniform(-1, 1), 3) for g in ages}
    ma = pd.DataFrame({'Age': ages, 'Alpha': [al[g] for g in ages], 'Beta': [be[g] for g in ages]})
    lc = LeeCarter(df.rename(columns={'X': 'Kappa'}), ma, **kw)
    ctx.describe(times=ts, values=xs, kind=kind)
    ctx.nontrivial((ts, xs, kind))

    def at(t, vs, kind):
        if t <= ts[0]:
            return vs[0]
        if t >= ts[-1]:
            return vs[-1]
        if kind == 'previous':
            return [v for x, v in zip(ts, vs) if x <= t][-1]
        if kind == 'next':
            return [v for x, v in zip(ts, vs) if x >= t][0]
        if kind != 'linear':
            return min(zip(ts, vs), key=lambda p: abs(p[0] - t))[1]
        for (t0, v0), (t1, v1) in zip(zip(ts, vs), zip(ts[1:], vs[1:])):
            if t0 <= t <= t1:
                return v0 + (v1 - v0) * (t - t0) / (t1 - t0)

    lin = kind
    qs = [ts[0] - 5, ts[-1] + 7, ts[0], ts[-1]] + list(ts) + [r.uniform(ts[0], ts[-1]) for _ in range(5)]
    for t in qs:
        near = sorted(abs(x - t) for x in ts)
        if kind in ('nearest', 'default') and len(near) > 1 and abs(near[0] - near[1]) < 1e-8:
            continue
        ctx.close(a(t), at(t, xs, lin), 'value of a series', time=t, times=ts, values=xs, kind=kind)
        v = b(t)
        ctx.close(v['X'], at(t, xs, lin), 'value of a vector of series', time=t)
        ctx.close(v['Y'], at(t, ys, lin), 'value of a vector of series', time=t)
        ctx.close(a.sample(t=t), at(t, xs, lin), 'sample of a series', time=t)
        ka = at(t, xs, lin)
        rates = lc(t)
        for g in ages:
            ctx.close(rates[g], math.exp(al[g] + be[g] * ka), 'Lee-Carter rate', time=t, age=g)
            ctx.close(lc.get_rate(t, g), rates[g], 'Lee-Carter rate', time=t, age=g)
        near = sorted(abs(x - t) for x in ts)
        if len(near) > 1 and abs(near[0] - near[1]) < 1e-8:
            continue
        ctx.expect(c(t) == at(t, [names[h] for h in hot], 'nearest'), 'draw of a table over time', time=t, got=c(t))
    ctx.expect(df.equals(before), 'the source table was changed')
    t0 = r.uniform(ts[0] - 1, ts[-1] + 1)
    ctx.expect(len(a.sample(3, t=t0)) == 3, 'number of values of a series')
    # a table with several possible classes at each time
    w = [weights(r, 3) for _ in ts]
    if r.random() < .5:                       # the same scale in all rows, as counts
        w = [[x / sum(v) for x in v] for v in w]
    pt = pd.DataFrame([dict(zip(names, v), Time=t) for t, v in zip(ts, w)]).sample(frac=1, random_state=r.randrange(10 ** 6))
    c = TimeSeriesProbabilityTable(pt, 'Time', names)
    i = r.randrange(len(ts))
    t0 = r.choice([ts[i], ts[0] - 3, ts[-1] + 3, ts[i] + 1e-5])
    i = min(range(len(ts)), key=lambda q: abs(ts[q] - t0))
    got = [c(t0) for _ in range(80)] + list(c.sample(40, t=t0))
    for nm, x in zip(names, w[i]):
        q = x / sum(w[i])
        ctx.expect(abs(got.count(nm) / len(got) - q) < hoeffding(len(got)) and (q > 0 or nm not in got),
                   'draws of a table over time do not follow its row', time=t0, row=i, name=nm, got=got.count(nm), p=q)


def make_regression(r):
    """a regression over a (continuous), b (continuous) and g (flag) with its own reference: (object, law of the values)"""
    ca, cb, cg, c0 = (round(r.uniform(-1, 1), 3) for _ in range(4))
    regs = [{'Name': 'a', 'Type': 'Continuous', 'Value': ca}, {'Name': 'b', 'Type': 'Continuous', 'Value': cb},
            {'Name': 'g', 'Type': 'Boolean', 'Value': cg}]
    r.shuffle(regs)
    lp = lambda v: ca * v['a'] + cb * v['b'] + (cg if v['g'] else 0)
    t = r.choice(['linear', 'logistic', 'poisson', 'multinomial', 'cox', 'zicox'])
    if t == 'linear':
        se = round(r.uniform(.2, 1), 3)
        return t, LinearRegression({'Intercept': c0, 'Regressors': regs, 'SE': se}), dict(
            cdf=lambda x, v: LAWS['norm'].cdf(x, c0 + lp(v), se), logp=lambda x, v: LAWS['norm'].logp(x, c0 + lp(v), se))
    if t == 'logistic':
        pr = lambda v: {1: 1 / (1 + math.exp(-c0 - lp(v))), 0: 1 / (1 + math.exp(c0 + lp(v)))}
        return t, LogisticRegression({'Intercept': c0, 'Regressors': regs}), dict(mass=pr)
    if t == 'poisson':
        return t, PoissonRegression({'Intercept': c0, 'Regressors': regs}), dict(
            mass=lambda v: {k: math.exp(LAWS['pois'].logp(k, math.exp(c0 + lp(v)))) for k in range(60)}, open=True,
            logp=lambda x, v: LAWS['pois'].logp(int(x), math.exp(c0 + lp(v))))
    if t == 'multinomial':
        inc = [round(r.uniform(-1, 1), 2) for _ in range(3)]
        cs = [round(r.uniform(-1, 1), 2) for _ in range(3)]

        def mass(v):
            w = [1 / (1 + math.exp(-i - c * v['a'])) for i, c in zip(inc, cs)]
            return {k: x / sum(w) for k, x in zip('PQR', w)}
        return t, MultinomialLogisticRegression({'Intercepts': inc, 'Labels': list('PQR'), 'Regressions': [
            [{'Name': 'a', 'Type': 'Continuous', 'Value': c}] for c in cs]}), dict(mass=mass)
    rate = round(r.uniform(.3, 2), 3)
    cox = {'Baseline': {'Type': 'exp', 'Rate': rate}, 'Regressors': regs}
    if t == 'cox':
        return t, CoxRegression(cox), dict(cdf=lambda x, v: LAWS['exp'].cdf(x, rate * math.exp(lp(v))) if x > 0 else 0.0,
                                           logp=lambda x, v: LAWS['exp'].logp(x, rate * math.exp(lp(v))), tol=1e-3)
    pz = lambda v: 1 / (1 + math.exp(-c0 - .5 * v['a']))
    z = {'PrZero': {'Intercept': c0, 'Regressors': [{'Name': 'a', 'Type': 'Continuous', 'Value': .5}]}, 'PrTTE': cox}
    return t, ZeroInflatedCoxRegression(z), dict(
        cdf=lambda x, v: pz(v) + (1 - pz(v)) * LAWS['exp'].cdf(x, rate * math.exp(lp(v))) if x >= 0 else 0.0, atoms=True,
        logp=lambda x, v: math.log(pz(v)) if x == 0 else math.log(1 - pz(v)) + LAWS['exp'].logp(x, rate * math.exp(lp(v))), tol=1e-3)


def agree_law(ctx, ys, law, v, what):
    n = len(ys)
    if 'mass' in law:
        m = law['mass'](v)
        for k, p in m.items():
            ctx.expect(abs(ys.count(k) / n - p) < hoeffding(n), what, value=k, got=ys.count(k) / n, expected=p)
        ctx.expect(law.get('open') or set(ys) <= set(m), what + ': an unknown value', got=set(ys))
    elif law.get('atoms'):
        dev = max(abs(sum(y <= q for y in ys) / n - law['cdf'](q, v)) for q in ys)
        ctx.expect(dev < ks_critical(n), what, deviation=dev)
    else:
        dev = ks_stat([float(y) for y in ys], lambda x: law['cdf'](x, v))
        ctx.expect(dev < ks_critical(n), what, deviation=dev)


def score(law, y, v):
    return law['logp'](float(y), v) if 'logp' in law else math.log(law['mass'](v)[y])


def data_nodes(ctx):
    """variables drawn from user-supplied regressions"""
    r = ctx.rng
    kind, reg, law = make_regression(r)
    fn = 'reg_%d_%d' % (ctx.index, r.randint(0, 10 ** 6))
    add_data_func(fn, reg)
    text = kind == 'multinomial'
    lines = ['a ~ norm(0, 1)', 'b = a * 2 + c', 'g = %d' % r.randint(0, 1), 'y ~ %s(a, b, g)' % fn] + (['z = y * 3'] if not text else [])
    r.shuffle(lines)
    bn = bayes_net_from_script('PCore D {\n%s\n}' % '\n'.join(lines))
    ctx.describe(lines=lines, kind=kind)
    ctx.nontrivial((lines, kind))
    ctx.count('variables by ' + kind)
    how = r.choice(['script', 'json', 'text', 'copy', 'printed'])
    if how == 'json':
        bn = bayes_net_from_json(bn.to_json())
    elif how == 'text':
        bn = bayes_net_from_json(through_text(bn.to_json()))
    elif how == 'copy':
        bn = bn.clone() if hasattr(bn, 'clone') else bn
    elif how == 'printed':
        bn = bayes_net_from_script(str(bn.to_script() if hasattr(bn, 'to_script') else bn))
    ctx.expect(set(bn['y'].Parents) == {'a', 'b', 'g'} and bn.is_rv('y'), 'a variable with a data function', got=bn['y'].Parents, how=how)
    cond = {'c': r.randint(-2, 2), 'a': round(r.uniform(-2, 2), 3)}
    n = 80
    ys = []
    vs = None
    for _ in range(n):
        vs = sample(bn, cond=cond)
        if not text:
            ctx.close(vs['z'], vs['y'] * 3, 'child of a data function')
        ys.append(vs['y'])
    agree_law(ctx, ys, law, vs, 'draws of a variable with a data function')
    base = LAWS['norm'].logp(vs['a'], 0, 1)
    ctx.close(evaluate_nodes(bn, vs), base + score(law, vs['y'], vs), 'log density with a data function', tol=law.get('tol', 1e-6),
              values=vs, how=how)
    # given by the user
    y0 = ys[0]
    fixed = sample(bn, cond=dict(cond, y=y0))
    ctx.expect(fixed['y'] == y0, 'a given value of a variable with a data function was drawn', got=fixed['y'])
    # in a tree: drawn again after an impulse, and by samplers at the current values
    top, low = ['a', 'b', 'c', 'g'], ['y'] if text else ['y', 'z']
    fixed_below = r.random() < .5
    ns = NodeSet('top', as_fixed=['a', 'b', 'g'])
    ns.new_child('low', as_fixed=low if fixed_below else [], as_floating=[] if fixed_below else ['y'])
    sc = as_simulation_core(bn, ns)
    pc = sc.generate('t', exo={'c': cond['c']})
    kids = [pc.breed('k%d' % i, 'low') for i in range(2)]
    ctx.count('trees with data functions')

    def check(when):
        v = {k: pc[k] for k in top}
        ctx.close(v['b'], v['a'] * 2 + v['c'], 'a tree with a data function ' + when)
        for q in kids:
            if fixed_below:
                if not text:
                    ctx.close(q['z'], q['y'] * 3, 'child of a data function in a tree ' + when)
                ctx.close(q.LogPrior, score(law, q['y'], v), 'log prior of a data function in a tree ' + when, tol=law.get('tol', 1e-6))
            else:
                s = held[q.Nickname] if r.random() < .5 else q.get_sampler('y')
                agree_law(ctx, list(s.sample(60)), law, v, 'sampler of a data function ' + when)
    held = {} if fixed_below else {q.Nickname: q.get_sampler('y') for q in kids}
    check('at first')
    pc.impulse({'a': round(r.uniform(-2, 2), 3)})
    check('after an impulse')
    if r.random() < .5:
        pc.impulse({'g': 1 - pc['g']})
        check('after a second impulse')
    ctx.raises(AssertionError, lambda: add_data_func(fn, reg), 'a data function was replaced')
    ctx.raises(KeyError, lambda: bayes_net_from_script('PCore D {\ny ~ unknown_%s(a)\n}' % fn), 'an unknown data function')


WORKLOADS = [('transitions', transitions, 120, 2500), ('tables', tables, 80, 2000), ('series', series, 200, 5000),
             ('data_nodes', data_nodes, 60, 1500)]
FLOOR = {'transitions': 40, 'tables': 30, 'series': 50, 'data_nodes': 20}
