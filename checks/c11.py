"""C11: sampling a whole network."""
import math
from rtm.core import same
from rtm.bnlib import build
from rtm.dists import ks_stat, ks_critical, LAWS
from rtm.gen import Bin, total_logp, any_value, rand_net, exo_values, Node, Net, Var, Num, call_src, plain_params, settle, LAWNAMES
from sims_pars import sample, sample_chromosome, evaluate_nodes, add_math_func

ID = 'C11'
RULE = ('random networks with random conditions on any of their variables, sampled repeatedly; every draw is checked '
        'against the definitions; non-trivial if a function or a distribution with parents is drawn; distinct by script '
        'and condition')


def conditions(r, net, env=None):
    """exogenous values and values of some other variables"""
    cond = exo_values(r, net)
    others = [k for k in net.nodes if k not in cond]
    for k in r.sample(sorted(others), r.choice([0, 0, 1, min(2, len(others)), len(others)]) if others else 0):
        cond[k] = any_value(r)
    if r.random() < .3:
        cond['not_in_network'] = r.randint(1, 9)
    return cond


def consistent(ctx, net, vs, cond, what='a sample', free=None):
    """every value not conditioned on agrees with the definition of its variable"""
    for k in net.nodes if free is None else free:
        if k in cond:
            ctx.expect(same(vs[k], cond[k], 0), what + ' changed a given value', variable=k, got=vs[k], given=cond[k])
            continue
        n = net[k]
        e = n.expected(vs)
        if e is not None:
            ctx.close(vs[k], e, what + ' disagrees with a definition', variable=k, definition=n.src, values=vs)
        elif n.kind == 'dist':
            lo, hi = n.support(vs)
            ctx.expect(lo <= vs[k] <= hi, what + ' is outside the support', variable=k, definition=n.src, values=vs)
            if LAWS[n.law].integer:
                ctx.expect(vs[k] == int(vs[k]), what + ' of an integer law is a fraction', variable=k, got=vs[k])
            ctx.count('random values')




def sampling(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([1, 3, 6, 10, 15] * 4 + [45]))
    bn = build(r, net)
    cond = conditions(r, net)
    ctx.describe(script=net.script(), condition=cond)
    if any(n.kind in ('func', 'dist') and n.parents and k not in cond for k, n in net.nodes.items()):
        ctx.nontrivial((net.script(), cond))
    before = dict(cond)
    for j in range(4):
        vs = sample(bn, cond=cond) if cond or r.random() < .5 else sample(bn)
        ctx.expect(set(vs) == set(net.nodes) | set(cond), 'variables of a sample', got=sorted(vs))
        ctx.expect(cond == before, 'sampling changed the given condition', got=cond, before=before)
        consistent(ctx, net, vs, cond)
        for k in cond:
            ctx.expect(same(vs[k], cond[k], 0), 'a given value was changed', variable=k)
    ch = sample_chromosome(bn, cond=cond)
    vs = dict(ch)
    ctx.expect(set(vs) == set(net.nodes) | set(cond), 'variables of a chromosome', got=sorted(vs))
    consistent(ctx, net, vs, cond, 'a chromosome')
    ctx.close(ch.LogProb, total_logp(net, vs), 'log probability of a chromosome',
              tol=1e-6, values=vs)
    need = sorted(net.exo)
    if need:
        k = r.choice(need)
        ctx.raises(ValueError, lambda: sample(bn, cond={a: v for a, v in cond.items() if a != k}),
                   'sampled without an exogenous variable', missing=k)
        ctx.raises(ValueError, lambda: sample(bn), 'sampled without exogenous variables')


def determined(ctx):
    """networks whose random variables are constants: the whole sample is predictable"""
    r = ctx.rng
    net = rand_net(r, r.choice([2, 5, 9, 16] * 4 + [50]), deterministic=True)
    bn = build(r, net)
    cond = conditions(r, net)
    ctx.describe(script=net.script(), condition=cond)
    ctx.nontrivial((net.script(), cond))
    want = settle(r, net, exo={k: v for k, v in cond.items()}, fixed=cond)
    vs = sample(bn, cond=cond)
    for k in net.nodes:
        ctx.close(vs[k], want[k], 'value of a determined sample', variable=k, definition=net[k].src, got_all=vs)


SEEN = []


def probe(tag, x):
    SEEN.append((tag, x))
    return x


add_math_func('probe', probe)


def once(ctx):
    """random variables are drawn with the values of their parents which end up in the sample"""
    r = ctx.rng
    net = rand_net(r, r.randint(2, 8), p_exo=.1)
    nodes = list(net.nodes.values())
    names = list(net.nodes)
    new = []
    for i in range(r.randint(1, 4)):
        pa = r.choice(names + [n.name for n in new])
        nm = 'pr%d' % i
        ps = {'mean': Var(pa), 'sd': Num(1.0)}
        new.append(Node(nm, 'dist', law='norm', params=ps, src='norm(probe(%d, %s), sd=1)' % (i, pa)))
        new[-1].pa = pa
    full = Net(net.name, nodes + new)
    bn = build(r, full)
    cond = conditions(r, full)
    ctx.describe(script=full.script(), condition=cond)
    ctx.nontrivial((full.script(), cond))
    SEEN.clear()
    vs = sample(bn, cond=cond)
    got = list(SEEN)
    for i, n in enumerate(new):
        ev = [x for t, x in got if t == i]
        if n.name in cond:
            continue
        ctx.count('probes', len(ev))
        ctx.expect(len(ev) >= 1, 'a random variable was not drawn from its definition', variable=n.name)
        ctx.expect(all(same(x, vs[n.pa], 0) for x in ev), 'a random variable was drawn with another value of its parent',
                   variable=n.name, parent=n.pa, seen=ev, sample=vs)
        ctx.expect(abs(vs[n.name] - vs[n.pa]) < 9, 'a draw is too far from its mean', variable=n.name, got=vs)


def law(ctx):
    """repeated samples are fresh draws of the declared laws"""
    r = ctx.rng
    lw = r.choice([l for l in LAWNAMES if not LAWS[l].integer])
    src, eff = call_src(r, lw, plain_params(r, lw))
    nodes = [Node('a', 'dist', law=lw, params=eff, src=src),
             Node('b', 'dist', law='norm', params={'mean': Var('a'), 'sd': Num(2.0)}, src='norm(a, 2)'),
             Node('c', 'dist', law='norm', params={'mean': Num(0), 'sd': Num(1.0)}, src='norm(0, 1)')]
    bn = build(r, Net('L', nodes))
    ctx.describe(law=src)
    ctx.nontrivial(src)
    n = 200
    vs = [sample(bn) for _ in range(n)]
    crit = ks_critical(n)
    ps = [eff[p].ev({}) for p, _ in LAWS[lw].params]
    dev = ks_stat([v['a'] for v in vs], lambda x: LAWS[lw].cdf(x, *ps))
    ctx.expect(dev < crit, 'a variable of the samples does not follow its law', law=src, deviation=dev)
    phi = LAWS['norm'].cdf
    dev = ks_stat([v['b'] - v['a'] for v in vs], lambda x: phi(x, 0, 2))
    ctx.expect(dev < crit, 'a child does not follow its law given its parent', law=src, deviation=dev)
    # two independent normals: their difference has variance 1 + 4
    dev = ks_stat([v['c'] - (v['b'] - v['a']) for v in vs], lambda x: phi(x, 0, math.sqrt(5)))
    ctx.expect(dev < crit, 'two independent variables are drawn dependently', deviation=dev)


def nearby(ctx):
    """one network sampled and scored at values that hardly differ"""
    r = ctx.rng
    base, gap = round(r.uniform(-2, 2), 3), 10.0 ** -r.randint(6, 11)
    sc = gap * r.choice([.1, .3])
    nodes = [Node('a', 'exo'), Node('f', 'func', expr=Bin('*', Var('a'), Num(1)), src='a * 1'),
             Node('u', 'dist', law='unif', params={'min': Var('f'), 'max': Bin('+', Var('f'), Num(sc))},
                  src='unif(f, f + %r)' % sc),
             Node('k', 'dist', law='k', params={'k': Var('a')}, src='k(a)'),
             Node('m', 'dist', law='norm', params={'mean': Var('a'), 'sd': Num(sc / 9)}, src='norm(a, %r)' % (sc / 9))]
    net = Net('L', nodes)
    bn = build(r, net)
    ctx.describe(script=net.script(), base=base, gap=gap)
    ctx.nontrivial((base, gap))
    vs = {}
    for j in [r.randint(-3, 3) for _ in range(8)]:
        a = base + j * gap
        vs = sample(bn, cond={'a': a})
        ctx.expect(vs['f'] == a and vs['k'] == a, 'a value of nearly the same condition', values=vs)
        ctx.expect(a <= vs['u'] <= a + sc, 'a draw outside the support under nearly the same condition', values=vs)
        ctx.expect(abs(vs['m'] - a) < sc, 'a draw far from its mean under nearly the same condition', values=vs)
        for k in ('u', 'm', 'k'):
            ctx.expect(bn[k].evaluate(vs) > -30, 'a sample is impossible under nearly the same condition', values=vs)
            ctx.expect(bn[k].evaluate({**vs, 'a': a + gap, 'f': a + gap}) < -30, 'a sample of nearly the same condition is likely',
                       variable=k, values=vs, gap=gap)


WORKLOADS = [('nearby', nearby, 60, 1000), ('sampling', sampling, 500, 8000), ('determined', determined, 400, 6000), ('once', once, 200, 3000),
             ('law', law, 24, 500)]
FLOOR = {'nearby': 20, 'sampling': 100, 'determined': 100, 'once': 60, 'law': 10}
