"""C14: chromosomes under impulses."""
import json
import math
import numpy as np
from rtm.core import same
from rtm.bnlib import build, item
from rtm.dists import LAWS, ks_stat, ks_critical
from rtm.gen import total_logp, any_value, rand_net, exo_values, settle, Net, Node, Num, Var, Bin
from checks.c11 import consistent
from sims_pars import sample_chromosome, evaluate_nodes, sample
from sims_pars.bayesnet import Chromosome

ID = 'C14'
RULE = ('random networks, chromosomes drawn from them and random sequences of impulses (given values, redraws, unknown '
        'names, no network), clones and JSON; non-trivial if a descendant must be recomputed; distinct by script and '
        'impulses')


def impulses(ctx):
    r = ctx.rng
    det = r.random() < .6
    net = rand_net(r, r.choice([2, 4, 8, 12] * 4 + [40]), deterministic=det)
    bn = build(r, net)
    exo = exo_values(r, net)
    ch = sample_chromosome(bn, cond=exo)
    names = sorted(net.nodes)
    log, ref = [], dict(ch)
    given = dict(exo)      # values which were set by hand and not recomputed since
    ctx.describe(script=net.script(), start=ref)
    for _ in range(r.randint(1, 5)):
        new = {}
        for k in r.sample(names, r.randint(0, min(3, len(names)))):
            new[k] = None if r.random() < .3 else any_value(r)
        if r.random() < .2:
            new['not_in_network'] = 3
        use_bn = r.random() < .85
        if not use_bn:
            new = {k: v for k, v in new.items() if v is not None}
        log.append((dict(new), use_bn))
        hit = {k: v for k, v in new.items() if k in ref}
        twin = ch.clone()
        ctx.expect(dict(twin) == dict(ch) and same(twin.LogProb, ch.LogProb), 'a clone differs from its original')
        frozen = dict(twin), twin.LogProb
        old, old_lp = dict(ch), ch.LogProb
        arg = dict(new)
        ch.impulse(arg, bn) if use_bn else ch.impulse(arg)
        ctx.expect(arg == new, 'an impulse changed its argument')
        vs = dict(ch)
        ctx.expect(set(vs) == set(old), 'an impulse changed the set of variables', got=sorted(vs), log=log)
        ctx.expect((dict(twin), ) == (frozen[0], ) and same(twin.LogProb, frozen[1]), 'an impulse changed a clone', log=log)
        below = set()
        for k in hit:
            below |= net.descendants(k)
            if hit[k] is None:
                below.add(k)
        below -= {k for k, v in hit.items() if v is not None}
        if not use_bn:
            below = set()
        for k, v in hit.items():
            if v is not None:
                ctx.expect(vs[k] == v, 'an impulse did not set a value', variable=k, got=vs[k], log=log)
                given[k] = v
        for k in names:
            if k not in below and k not in hit:
                ctx.expect(same(vs[k], old[k], 0), 'an impulse changed an unrelated variable', variable=k, log=log,
                           before=old, after=vs)
        if use_bn:
            fixed = {k: vs[k] for k in net.nodes if k not in below or net[k].kind == 'exo'}
            consistent(ctx, net, vs, fixed, 'an impulse')
            for k in below:
                n = net[k]
                if n.kind == 'dist' and n.law != 'k' and not LAWS[n.law].integer and abs(old[k]) < 1e6 and abs(vs[k]) < 1e6:
                    lo, hi = n.support(vs)
                    if min(abs(vs[k] - lo), abs(vs[k] - hi)) > 1e-9:
                        ctx.expect(vs[k] != old[k], 'a random descendant was not drawn again', variable=k, log=log)
                        ctx.count('drawn again')
        if hit and (below or any(v is not None for v in hit.values())):
            ctx.expect(not ch.is_evaluated() and math.isnan(ch.LogProb), 'the log probability is kept after an impulse',
                       got=ch.LogProb, log=log)
        if not hit:
            ctx.expect(vs == old and same(ch.LogProb, old_lp), 'an impulse on nothing changed the chromosome', log=log)
        if below:
            ctx.nontrivial((net.script(), log))
            ctx.count('recomputed', len(below))
        if r.random() < .5:
            ch.LogProb = evaluate_nodes(bn, ch)
            want = total_logp(net, vs)
            ctx.close(ch.LogProb, want, 'log probability after an impulse', tol=1e-6, log=log)
            ctx.expect(ch.is_evaluated(), 'an evaluated chromosome')


def law(ctx):
    """what an impulse draws again follows its law at the new values"""
    r = ctx.rng
    m, s, v = round(r.uniform(-3, 3), 2), r.choice([.5, 1.0, 2.0]), round(r.uniform(-9, 9), 2)
    nodes = [Node('a', 'dist', law='norm', params={'mean': Num(m), 'sd': Num(s)}, src='norm(%r, %r)' % (m, s)),
             Node('f', 'func', expr=Bin('*', Num(2), Var('a')), src='2 * a'),
             Node('b', 'dist', law='norm', params={'mean': Var('f'), 'sd': Num(1.0)}, src='norm(f, 1)')]
    bn = build(r, Net('L', nodes))
    ch = sample_chromosome(bn)
    ctx.describe(m=m, s=s, v=v)
    ctx.nontrivial((m, s, v))
    n, phi = 200, LAWS['norm'].cdf
    for imp in ({'a': None}, {'a': v}, {'b': None}, {'f': v}, {'a': None, 'b': None}, {'a': None, 'f': v}):
        xs = []
        for _ in range(n):
            ch.impulse(dict(imp), bn)
            xs.append(dict(ch))
        dev = ks_stat([x['b'] - x['f'] for x in xs], lambda x: phi(x, 0, 1))
        ctx.expect(dev < ks_critical(n), 'a descendant drawn by an impulse does not follow its law', impulse=imp, deviation=dev)
        if imp.get('a', 0) is None:
            dev = ks_stat([x['a'] for x in xs], lambda x: phi(x, m, s))
            ctx.expect(dev < ks_critical(n), 'a variable drawn by an impulse does not follow its law', impulse=imp, deviation=dev)


def partial(ctx):
    """chromosomes holding only some variables"""
    r = ctx.rng
    net = rand_net(r, r.choice([3, 6, 10] * 4 + [40]), deterministic=True)
    bn = build(r, net)
    vs = settle(r, net, exo_values(r, net))
    keep = set()
    for k in r.sample(sorted(net.nodes), r.randint(1, len(net.nodes))):
        keep |= {k} | net.ancestors(k)
    ch = Chromosome({k: vs[k] for k in sorted(keep)}, -1.5)
    new = {k: any_value(r) for k in r.sample(sorted(net.nodes), r.randint(1, min(4, len(net.nodes))))}
    ctx.describe(script=net.script(), kept=sorted(keep), impulse=new)
    hit = {k: v for k, v in new.items() if k in keep}
    ch.impulse(new, bn)
    ref = {k: v for k, v in vs.items() if k in keep}
    ref.update(hit)
    below = set().union(*[net.descendants(k) for k in hit]) & keep - set(hit)
    for k in net.order:
        if k in below:
            ref[k] = net[k].expected(ref)
    ctx.expect(set(dict(ch)) == keep, 'an impulse changed the set of variables', got=sorted(dict(ch)))
    for k in keep:
        ctx.close(ch[k], ref[k], 'value after an impulse', variable=k, got_all=dict(ch), expected_all=ref)
    if below:
        ctx.nontrivial((net.script(), new))


def containers(ctx):
    r = ctx.rng
    vs = {k: r.choice([round(r.uniform(-5, 5), 4), r.randint(-5, 5)]) for k in r.sample(['a', 'b', 'c', 'd', 'e'], r.randint(1, 5))}
    lp = r.choice([-1.25, 0, -10.5, float('nan'), -math.inf])
    src = dict(vs)
    ch = Chromosome(src, lp)
    ctx.describe(values=vs, lp=lp)
    ctx.nontrivial((sorted(vs.items()), lp))
    ctx.expect(len(ch) == len(vs) and set(ch.keys()) == set(vs) and all(k in ch and ch[k] == v for k, v in vs.items())
               and 'zz' not in ch and dict(iter(ch)) == vs, 'the content of a chromosome')
    ctx.expect(ch.is_evaluated() == (not math.isnan(lp)), 'is_evaluated')
    js = json.loads(json.dumps(ch.to_json(), default=item))
    for c2 in (Chromosome.from_json(js), Chromosome.from_json(ch.to_json()), ch.clone()):
        ctx.expect(dict(c2) == vs and same(c2.LogProb, lp), 'a chromosome from JSON or clone', got=repr(c2))
        k = r.choice(sorted(vs))
        c2[k] = 99
        ctx.expect(c2[k] == 99 and not c2.is_evaluated(), 'setting a value keeps the log probability')
        ctx.expect(dict(ch) == vs and same(ch.LogProb, lp) and src == vs, 'changing a copy changed the original')
    src['a_new'] = 1
    ctx.expect('a_new' not in ch, 'a chromosome shares its source')
    many = [Chromosome({k: r.uniform(-1, 1) for k in vs}, -i) for i in range(r.randint(2, 6))]
    m = Chromosome.mean(many)
    df = Chromosome.to_data_frame(many)
    sm = Chromosome.summarise(many)
    ctx.expect(len(df) == len(many), 'rows of the table')
    for k in vs:
        xs = [c[k] for c in many]
        ctx.close(m[k], sum(xs) / len(xs), 'mean of chromosomes', variable=k)
        ctx.expect(list(df[k]) == xs, 'table of chromosomes', variable=k)
        ctx.close(sm[k]['max'], max(xs), 'summary of chromosomes')
        ctx.close(sm[k]['min'], min(xs), 'summary of chromosomes')
    ctx.expect(list(df['LogProb']) == [c.LogProb for c in many], 'log probabilities in the table')


WORKLOADS = [('law', law, 16, 300), ('impulses', impulses, 700, 12000), ('partial', partial, 300, 5000), ('containers', containers, 120, 1500)]
FLOOR = {'law': 8, 'impulses': 150, 'partial': 60, 'containers': 50}
