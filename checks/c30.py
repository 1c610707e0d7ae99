"""C30: particles and parameter sets as records, tables and copies."""
import copy
import json
import math
import numpy as np
from rtm.core import same
from rtm.bnlib import item
from rtm.models import rand_model
from sims_pars.bayesnet import Chromosome
from sims_pars.fit.base import Particle
from sims_pars.fit.results import ParameterSet

ID = 'C30'
RULE = ('random particles and parameter sets, from models and synthetic ones, through records (with and without text), '
        'tables, copies and changes; distinct by contents')


def rand_pars(r, keys):
    v = {k: r.choice([r.uniform(-9, 9), r.randint(0, 9), 0.0, 1e-12, -3.5]) for k in keys}
    return Chromosome(v, r.choice([float('nan'), -1.25, 0.0, -math.inf])) if r.random() < .8 else Chromosome(v)


def same_map(a, b):
    return set(a) == set(b) and all(same(a[k], b[k], 0) if not isinstance(a[k], (dict, list)) else a[k] == b[k] for k in a)


def rand_particle(r, keys, outs):
    p = Particle(rand_pars(r, keys), {k: r.choice([r.uniform(-5, 5), r.randint(0, 20)]) for k in outs})
    if r.random() < .8:
        p['Xs'] = [p.Pars[k] for k in sorted(keys)]
        p['Ys'] = {k: p.Sims[k] for k in sorted(outs)[:2]}
    if r.random() < .5:
        p['distance'] = r.uniform(0, 9)
    if r.random() < .3:
        p['tag'] = r.choice(['txt', 3, None, [1, 2]])
    return p


def trip(r, js):
    return json.loads(json.dumps(js, default=item)) if r.random() < .7 else js


def particles(ctx):
    r = ctx.rng
    if r.random() < .3:
        m = rand_model(r, n=r.randint(1, 4), noise=.1)
        p = m.simulate(m.sample_prior())
        m.flatten(p)
        m.calc_distance(p)
    else:
        p = rand_particle(r, r.sample(['a', 'b', 'c', 'be', 'x1'], r.randint(1, 4)), r.sample(['y', 'z', 'w'], r.randint(1, 3)))
    ctx.describe(pars=dict(p.Pars), sims=dict(p.Sims), notes=dict(p.Notes))
    ctx.nontrivial((sorted(dict(p.Pars).items()), sorted(p.Sims.items()), sorted(map(str, p.Notes.items()))))
    before = (dict(p.Pars), p.Pars.LogProb, dict(p.Sims), dict(p.Notes))
    notes0 = copy.deepcopy(before[3])
    js = trip(r, p.to_json())
    q = Particle.from_json(js)
    ctx.expect(same_map(dict(q.Pars), before[0]) and same(q.Pars.LogProb, before[1], 0) and same_map(dict(q.Sims), before[2]),
               'a particle changed through its record', got=(dict(q.Pars), q.Pars.LogProb, dict(q.Sims)), expected=before)
    ctx.expect(set(q.Notes) == set(before[3]) and all(q[k] == before[3][k] or same(q[k], before[3][k], 0) for k in before[3]),
               'notes changed through a record', got=q.Notes, expected=before[3])
    ctx.expect(isinstance(q.Pars, Chromosome) and q.Pars.is_evaluated() == p.Pars.is_evaluated(), 'parameters of a read particle')
    c = p.copy()
    ctx.expect(same_map(dict(c.Pars), before[0]) and same(c.Pars.LogProb, before[1], 0) and same_map(dict(c.Sims), before[2]),
               'a copy of a particle')
    ctx.expect(set(c.Notes) == {'Xs', 'Ys'} & set(before[3]) and all(c[k] == before[3][k] for k in c.Notes), 'notes of a copy',
               got=c.Notes)
    # what is done to one is not seen in the others
    k = sorted(before[0])[0]
    q.Pars[k] = 1234.5
    c.Pars[k] = 4321.0
    c['distance'] = -1
    q['mark'] = 1
    ctx.expect(p.Pars[k] == before[0][k] and 'mark' not in p.Notes and p.Notes.get('distance') == before[3].get('distance'),
               'a change of a copy is seen in the original', key=k)
    ctx.expect(q.Pars[k] == 1234.5 and c.Pars[k] == 4321.0 and not c.Pars.is_evaluated(), 'a change of a copy')
    if before[2]:
        y = sorted(before[2])[0]
        c.Sims[y] = -77.5
        q.Sims[y] = 77.5
        if 'Ys' in c.Notes:
            c['Ys'][sorted(c['Ys'])[0]] = -5.5
            c['Xs'][0] = -6.5
        ctx.expect(same_map(dict(p.Sims), before[2]) and all(p[n] == v or same(p[n], v, 0) for n, v in notes0.items()),
                   'a change of the outputs of a copy is seen in the original', got=(p.Sims, p.Notes), expected=(before[2], notes0))
        d = p.copy()
        p.Sims[y] = 11.25
        ctx.expect(d.Sims[y] == before[2][y], 'a change of the original is seen in a copy')
    ctx.raises(KeyError, lambda: p['no such note'], 'a missing note was read')


def sets(ctx):
    r = ctx.rng
    keys, outs = r.sample(['a', 'b', 'c', 'be'], r.randint(1, 4)), r.sample(['y', 'z'], r.randint(1, 2))
    ps = ParameterSet(r.choice(['ABC', 'X', 'Prior'])) if r.random() < .8 else ParameterSet()
    pts = []
    log = []
    notes = {}
    for _ in range(r.choice([r.randint(1, 12)] * 9 + [r.randint(101, 320)])):
        op = r.choice(['append', 'append', 'keep'])
        if op == 'append':
            p = rand_particle(r, keys, outs)
            p['Ys'] = dict(p.Sims)
            ps.append(p)
            pts.append(p)
            log.append(sorted(dict(p.Pars).items()))
        else:
            k = r.choice(['Eps', 'ESS', 'Acc'])
            notes[k] = r.uniform(0, 1)
            ps.keep(k, notes[k])
            log.append((k, notes[k]))
        ctx.expect(len(ps) == len(pts) and all(a is b for a, b in zip(ps.Particles, pts)), 'particles of a set')
    ctx.describe(log=log)
    ctx.nontrivial(log)
    for k, v in notes.items():
        ctx.expect(ps[k] == v, 'a note of a set', key=k)
    ctx.raises(KeyError, lambda: ps['nothing'], 'a missing note was read')
    js = ps.to_json()
    back = trip(r, js)
    ctx.expect(back['Algorithm'] == ps.Algorithm and back['Notes'] == notes and len(back['Posterior']) == len(pts), 'record of a set')
    for a, p in zip(back['Posterior'], pts):
        ctx.expect(same_map(a, dict(p.Pars)), 'a particle in the record of a set', got=a)
    if pts:
        if r.random() < .25:
            # an output which was never observed
            y = r.choice(outs)
            for p in pts:
                p['Ys'][y] = p.Sims[y] = math.nan
            if r.random() < .3:
                k = r.choice(keys)
                for p in pts:
                    p.Pars[k] = math.nan
            ctx.count('sets with undefined columns')
        df, pf = ps.to_df(), ps.to_pred_df()
        ctx.expect(set(df.columns) == set(keys) and set(pf.columns) == set(outs) and len(df) == len(pf) == len(pts),
                   'tables of a set', got=(list(df.columns), list(pf.columns)))
        for i, p in enumerate(pts):
            ctx.expect(all(same(df[k].iloc[i], p.Pars[k], 0) for k in keys) and all(same(pf[k].iloc[i], p['Ys'][k], 0) for k in outs),
                       'a row of a table', row=i)
        gs = [p.Pars for p in pts]
        before = [(sorted(dict(g).items()), g.LogProb) for g in gs]
        mean, tab = Chromosome.mean(gs), Chromosome.to_data_frame(gs)
        for k in keys:
            ctx.close(mean[k], np.mean([g[k] for g in gs]), 'mean of parameters', key=k)
            ctx.expect(all(same(tab[k].iloc[i], g[k], 0) for i, g in enumerate(gs)), 'table of parameters')
            ctx.close(Chromosome.summarise(gs)[k]['max'], max(g[k] for g in gs), 'summary of parameters')
        rows = [g.to_data() for g in gs]
        for row, g in zip(rows, gs):
            ctx.expect(set(row) - {'LogProb'} == set(keys) and all(same(row[k], g[k], 0) for k in keys), 'parameters as data', got=row)
            row['extra'] = 1
        after = [(sorted(dict(g).items()), g.LogProb) for g in gs]
        ctx.expect(all(same_map(dict(a[0]), dict(b[0])) and same(a[1], b[1], 0) for a, b in zip(before, after)), 'parameters were changed by their export')
    js['Notes']['new'] = 1
    ctx.expect('new' not in ps.Notes, 'the record of a set shares its notes')


WORKLOADS = [('particles', particles, 700, 20000), ('sets', sets, 400, 10000)]
FLOOR = {'particles': 300, 'sets': 200}
