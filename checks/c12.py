"""C12: sampling only what is needed."""
from rtm.core import same
from rtm.bnlib import build
from rtm.dists import LAWS, ks_stat, ks_critical
from rtm.gen import any_value, rand_net, call_src, plain_params, LAWNAMES, Net, Node, Var, Num, Call, FNS
from checks.c10 import Ref
from checks.c11 import consistent
from sims_pars import sample_minimally, add_math_func

ID = 'C12'
RULE = ('random networks, targets and conditions; non-trivial if some variable is not needed; distinct by script, targets '
        'and condition')


def minimal(ctx):
    r = ctx.rng
    det = r.random() < .5
    net = rand_net(r, r.choice([2, 4, 8, 14] * 4 + [32, 60]), deterministic=det, p_exo=.35)
    bn = build(r, net)
    names = sorted(net.nodes)
    targets = r.sample(names, r.randint(1, min(4, len(names))))
    given = [k for k in r.sample(names, r.randint(0, len(names) // 2))]
    cond = {k: any_value(r) for k in given}
    cut = Ref(net.nodes, {(p, k) for k in net.nodes for p in net.par[k] if k not in cond})
    suf = set(targets) | cut.up(targets)
    for k in net.exo & suf:
        if k not in cond:
            cond[k] = any_value(r)
    ctx.describe(script=net.script(), targets=targets, condition=cond)
    if set(net.nodes) - suf:
        ctx.nontrivial((net.script(), targets, cond))
    before = dict(cond)
    inc = r.choice([list, set, tuple])(targets)
    sinks, med = sample_minimally(bn, inc, cond=cond)
    ctx.expect(cond == before, 'the given condition was changed')
    ctx.expect(set(sinks) == set(targets), 'variables of the result', got=sorted(sinks), expected=sorted(targets))
    want = (suf | set(cond)) - set(targets)
    ctx.expect(set(med) == want, 'mediating variables', got=sorted(med), expected=sorted(want))
    vs = {**sinks, **med}
    consistent(ctx, net, vs, cond, free=suf)
    if det:
        ref = dict(cond)
        for k in net.order:
            if k in suf and k not in ref:
                ref[k] = net[k].expected(ref)
        for k in suf:
            ctx.close(vs[k], ref[k], 'value of a determined sample', variable=k)
    only = sample_minimally(bn, inc, cond=cond, sources=False)
    ctx.expect(set(only) == set(targets), 'variables of the result without sources', got=sorted(only))
    need = sorted(k for k in net.exo & suf)
    if need:
        k = r.choice(need)
        ctx.raises(ValueError, lambda: sample_minimally(bn, inc, cond={a: v for a, v in cond.items() if a != k}),
                   'sampled without a needed exogenous variable', missing=k)


CALLED = []


def seen(tag, x):
    CALLED.append(tag)
    return x


add_math_func('seen', seen)
FNS['seen'] = lambda tag, x: x


def unneeded(ctx):
    """what the targets do not depend on is neither computed nor drawn"""
    r = ctx.rng
    net = rand_net(r, r.choice([3, 5, 8] * 5 + [30]), p_exo=.3)
    names = list(net.nodes)
    nodes = list(net.nodes.values())
    for i in range(r.randint(1, 5)):
        pa, nm = r.choice(names), 'sn%d' % i
        kind = r.choice(['func', 'dist', 'bad'])
        inner = Call('seen', [Num(i), Var(pa)])
        if kind == 'func':
            n = Node(nm, 'func', expr=inner, src='seen(%d, %s)' % (i, pa))
        elif kind == 'dist':
            n = Node(nm, 'dist', law='norm', params={'mean': inner, 'sd': Num(1.0)}, src='norm(seen(%d, %s), 1)' % (i, pa))
        else:
            n = Node(nm, 'dist', law='norm', params={'mean': inner, 'sd': Num(-1.0)}, src='norm(seen(%d, %s), -1)' % (i, pa))
        n.tag, n.bad = i, kind == 'bad'
        nodes.append(n)
        names.append(nm)
    net = Net(net.name, nodes)
    bn = build(r, net)
    names = sorted(net.nodes)
    targets = r.sample(names, r.randint(1, 3))
    cond = {k: any_value(r) for k in r.sample(names, r.randint(0, len(names) // 2))}
    cut = Ref(net.nodes, {(p, k) for k in net.nodes for p in net.par[k] if k not in cond})
    suf = set(targets) | cut.up(targets)
    for k in net.exo & suf:
        cond.setdefault(k, any_value(r))
    ctx.describe(script=net.script(), targets=targets, condition=cond)
    tagged = {k: n for k, n in net.nodes.items() if hasattr(n, 'tag')}
    need = {k for k in tagged if k in suf and k not in cond}
    if set(tagged) - need:
        ctx.nontrivial((net.script(), targets, cond))
    CALLED.clear()
    if any(tagged[k].bad for k in need):
        ctx.raises(ValueError, lambda: sample_minimally(bn, targets, cond=cond), 'an impossible variable was drawn')
        ctx.count('impossible')
        return
    sinks, med = sample_minimally(bn, targets, cond=cond)
    got = set(CALLED)
    ctx.expect(got == {tagged[k].tag for k in need}, 'variables computed for some targets', got=got, needed=sorted(need))
    ctx.expect(set(sinks) == set(targets), 'variables of the result', got=sorted(sinks))
    ctx.count('variables not computed', len(set(tagged) - need))


def law(ctx):
    """what is drawn follows its law"""
    r = ctx.rng
    lw = r.choice([l for l in LAWNAMES if not LAWS[l].integer])
    src, eff = call_src(r, lw, plain_params(r, lw))
    nodes = [Node('a', 'dist', law=lw, params=eff, src=src),
             Node('b', 'dist', law='norm', params={'mean': Var('a'), 'sd': Num(2.0)}, src='norm(a, 2)'),
             Node('other', 'dist', law='norm', params={'mean': Var('b'), 'sd': Num(1.0)}, src='norm(b, 1)')]
    bn = build(r, Net('L', nodes))
    ctx.describe(law=src)
    ctx.nontrivial(src)
    n = 200
    phi = LAWS['norm'].cdf
    if r.random() < .5:
        vs = [sample_minimally(bn, ['b']) for _ in range(n)]
        ps = [eff[p].ev({}) for p, _ in LAWS[lw].params]
        dev = ks_stat([m['a'] for _, m in vs], lambda x: LAWS[lw].cdf(x, *ps))
        ctx.expect(dev < ks_critical(n), 'a mediating variable does not follow its law', law=src, deviation=dev)
        dev = ks_stat([s['b'] - m['a'] for s, m in vs], lambda x: phi(x, 0, 2))
    else:
        a = round(r.uniform(-5, 5), 2)
        dev = ks_stat([sample_minimally(bn, ['b'], cond={'a': a}, sources=False)['b'] - a for _ in range(n)],
                      lambda x: phi(x, 0, 2))
    ctx.expect(dev < ks_critical(n), 'a target does not follow its law given its parent', law=src, deviation=dev)


WORKLOADS = [('minimal', minimal, 1000, 20000), ('unneeded', unneeded, 400, 8000), ('law', law, 24, 400)]
FLOOR = {'minimal': 250, 'unneeded': 100, 'law': 10}
