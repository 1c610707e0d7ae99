"""C13: log density of a configuration."""
import math
from rtm.bnlib import build, full_env, draw_value
from rtm.gen import total_logp, rand_net, Net, Node, Num, Var, LAWNAMES, plain_params, call_src
from rtm.dists import LAWS
from sims_pars import evaluate_nodes, sample, sample_chromosome
from sims_pars.bayesnet import Chromosome

ID = 'C13'
RULE = ('random networks and random values of all or some of their variables, inside and outside the supports; non-trivial '
        'if two or more random variables are evaluated; distinct by script and values')


def total(net, vs):
    return total_logp(net, vs, [k for k in net.nodes if k in vs])


def evaluating(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([1, 3, 6, 10, 15] * 4 + [45]), p_rv=.65)
    bn = build(r, net)
    vs = full_env(r, net)
    ctx.describe(script=net.script(), values=vs)
    if sum(n.kind == 'dist' for n in net.nodes.values()) >= 2:
        ctx.nontrivial((net.script(), vs))
    lp = evaluate_nodes(bn, vs)
    ctx.close(lp, total(net, vs), 'log density of all the variables', tol=1e-6)
    parts = [float(bn[k].evaluate(vs)) for k in net.nodes if net[k].kind == 'dist']
    if all(math.isfinite(p) for p in parts):
        ctx.expect(abs(lp - math.fsum(parts)) <= 1e-12 * (1 + math.fsum(map(abs, parts))), 'the log density is not the sum over '
                   'the random variables', got=lp, parts=parts)
    # order of the values does not matter, unknown names do not count, chromosomes are accepted
    ks = list(vs)
    r.shuffle(ks)
    mixed = {k: vs[k] for k in ks}
    mixed['not_in_network'] = 5
    before = dict(mixed)
    ctx.close(evaluate_nodes(bn, mixed), total(net, vs), 'log density with unknown names', tol=1e-6)
    ctx.expect(mixed == before, 'evaluation changed the values')
    ctx.close(evaluate_nodes(bn, Chromosome(mixed)), total(net, vs), 'log density of a chromosome', tol=1e-6)
    # functions and values add nothing whatever their values
    odd = dict(vs)
    loose = [k for k, n in net.nodes.items() if n.kind in ('value', 'func') and not any(net.is_rv(c) for c in net.chd[k])]
    for k in loose:
        odd[k] = vs[k] + 1
    ctx.close(evaluate_nodes(bn, odd), total(net, vs), 'log density after changing functions', tol=1e-6, changed=loose)
    # some of the variables, with their parents at hand
    part = set()
    for k in r.sample(sorted(net.nodes), r.randint(0, len(net.nodes))):
        part |= {k} | net.par[k] | net.ancestors(k)
    sub = {k: vs[k] for k in part}
    ctx.close(evaluate_nodes(bn, sub), total(net, sub), 'log density of some variables', tol=1e-6, given=sorted(sub))
    # one value out of its support makes it impossible
    rvs = [k for k, n in net.nodes.items() if n.kind == 'dist' and n.law not in ('norm',)]
    for k in r.sample(rvs, min(2, len(rvs))):
        lo, hi = net[k].support(vs)
        bad = dict(vs)
        bad[k] = r.choice(([lo - 1] if lo > -math.inf else []) + ([hi + 1] if hi < math.inf else []))
        try:
            want = total(net, bad)
        except (ValueError, OverflowError, ZeroDivisionError):
            continue
        if any(net.is_rv(c) for c in net.descendants(k)):
            want = -math.inf
        ctx.expect(want == -math.inf, 'reference')
        got = evaluate_nodes(bn, bad)
        ctx.expect(got == -math.inf, 'log density of an impossible configuration', variable=k, value=bad[k], got=got)
        ctx.count('impossible')
    rvs = [k for k, n in net.nodes.items() if n.kind == 'dist' and not any(net.is_rv(c) for c in net.descendants(k))]
    if rvs:
        bad = dict(vs)
        k = r.choice(rvs)
        bad[k] = float('nan')
        got = evaluate_nodes(bn, bad)
        ctx.expect(got == -math.inf, 'log density of an undefined configuration', variable=k, got=got)


def twins(ctx):
    """variables with the same law and the same value, each counted"""
    r = ctx.rng
    nodes, vs, lines = [Node('mu', 'exo')], {'mu': round(r.uniform(-1, 1), 2)}, 0
    for g in range(r.randint(1, 3)):
        law = r.choice([l for l in LAWNAMES if l not in ('unif',)] if r.random() < .7 else ['norm'])
        pv = plain_params(r, law)
        src, eff = call_src(r, law, pv)
        if law == 'norm' and r.random() < .5:
            src, eff = 'norm(mu, 1)', {'mean': Var('mu'), 'sd': Num(1)}
        v = draw_value(r, law, {k: e.ev(vs) for k, e in eff.items()})
        for i in range(r.randint(2, 9)):
            nm = 'g%d_%d' % (g, i)
            nodes.append(Node(nm, 'dist', law=law, params=eff, src=src))
            vs[nm] = v
    r.shuffle(nodes)
    net = Net('Twins', nodes)
    bn = build(r, net)
    ctx.describe(script=net.script(), values=vs)
    ctx.nontrivial((net.script(), sorted(vs.items())))
    ctx.close(evaluate_nodes(bn, vs), total(net, vs), 'log density of variables which are alike', tol=1e-6)
    ks = r.sample(sorted(vs), r.randint(1, len(vs)))
    sub = {k: vs[k] for k in set(ks) | {'mu'}}
    ctx.close(evaluate_nodes(bn, sub), total(net, sub), 'log density of some variables which are alike', tol=1e-6, given=sorted(sub))


def samples(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([1, 3, 6, 10]), p_exo=0)
    bn = build(r, net)
    ctx.describe(script=net.script())
    exo = {k: 1.0 for k in net.exo}
    for _ in range(3):
        vs = sample(bn, cond=exo)
        lp = evaluate_nodes(bn, vs)
        ctx.close(lp, total(net, vs), 'log density of a sample', tol=1e-6, values=vs)
        ctx.expect(lp > -math.inf, 'a sample is impossible under its own network', values=vs)
        ctx.nontrivial(sorted(vs.items()))


def extreme(ctx):
    """totals far beyond what the density itself can represent"""
    r = ctx.rng
    nodes, vs = [], {}
    m = r.choice([1, 2, 5, 12, 40])
    way = r.choice(['tiny', 'huge', 'mixed'])
    for i in range(m):
        nm = 'x%d' % i
        pa = r.choice(sorted(vs)) if vs and r.random() < .5 else None
        sd = float('%.3g' % 10 ** r.uniform(-40, -3)) if way == 'huge' or way == 'mixed' and i % 2 else round(r.uniform(.5, 2), 2)
        z = r.uniform(-2, 2) if way == 'huge' else r.choice([r.uniform(-3, 3), 40, -75, 1e3, -1e4, 30])
        mean = 0 if sd < .1 else round(r.uniform(-3, 3), 2)
        if pa and sd > .1:
            nodes.append(Node(nm, 'dist', law='norm', params={'mean': Var(pa), 'sd': Num(sd)}, src='norm(%s, %r)' % (pa, sd)))
            mean = vs[pa]
        else:
            nodes.append(Node(nm, 'dist', law='norm', params={'mean': Num(mean), 'sd': Num(sd)}, src='norm(%r, %r)' % (mean, sd)))
        vs[nm] = mean + z * sd
    net = Net('Far', nodes)
    bn = build(r, net)
    want = total(net, vs)
    ctx.describe(script=net.script(), values=vs)
    ctx.nontrivial(sorted(vs.items()))
    got = evaluate_nodes(bn, vs)
    ctx.expect(abs(got - want) <= 1e-9 * sum(abs(net[k].logp(vs[k], vs)) for k in vs) + 1e-9, 'log density of an extreme configuration', got=got, expected=want)
    if want < -745 or want > 709:
        ctx.count('totals beyond the floating-point range of densities')
    ks = r.sample(sorted(vs), r.randint(1, m))
    for k in list(ks):
        ks = sorted(set(ks) | set(net.ancestors(k)))
    sub = {k: vs[k] for k in ks}
    got, want = evaluate_nodes(bn, sub), total(net, sub)
    ctx.expect(abs(got - want) <= 1e-9 * sum(abs(net[k].logp(vs[k], vs)) for k in ks) + 1e-9, 'log density of some variables of an extreme configuration', got=got, expected=want)


WORKLOADS = [('evaluating', evaluating, 900, 20000), ('samples', samples, 250, 4000), ('extreme', extreme, 120, 2500), ('twins', twins, 150, 3000)]
FLOOR = {'twins': 40, 'extreme': 30, 'evaluating': 200, 'samples': 100}
