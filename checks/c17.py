"""C17: parameter cores of a hierarchy."""
import math
from rtm.core import same
from rtm.hier import World, check_core, visible, lineage, subtree, own_prior
from rtm.gen import rand_net, exo_values
from rtm.bnlib import build
from rtm.dists import LAWS, ks_stat, ks_critical, exchangeable
from rtm.gen import any_value
from sims_pars import (get_all_fixed_sc, get_all_float_sc, find_free_parameters, as_simulation_core, NodeSet,
                       bayes_net_from_script)

ID = 'C17'
RULE = ('random networks, random hierarchies of groups (each variable assigned at most once, nothing assigned below '
        'determines something assigned above, nothing floating determines something fixed beside it) and random trees of '
        'cores; non-trivial if there are two or more cores; distinct by script and hierarchy')


def trees(ctx):
    r = ctx.rng
    w = World(r, deterministic=r.random() < .4)
    ctx.describe(**w.describe())
    net = w.net
    if len(w.cores) > 1:
        ctx.nontrivial((net.script(), w.groups.text()))
    ctx.count('cores', len(w.cores))
    for pc in w.cores:
        check_core(ctx, net, pc)
        g = w.group[pc.Group]
        vs = visible(pc)
        for k in g.fixed:
            ctx.expect(k in vs, 'a fixed variable has no value in its group', variable=k, group=g.name, values=vs)
        names = set(pc.list_actors(shared=False))
        ctx.expect(not names & set(vs) and not set(pc.list_actors()) & set(vs), 'a variable has both a value and a sampler',
                   group=g.name, values=vs, samplers=names)
        for k in g.floating:
            ctx.expect(k in vs or k in names, 'a floating variable has neither a value nor a sampler in its group',
                       variable=k, group=g.name, samplers=names)
            if net.is_rv(k):
                ctx.expect(k in names, 'a floating random variable has no sampler in its group', variable=k, group=g.name)
                ctx.expect(k not in vs, 'a floating random variable has a fixed value', variable=k, group=g.name)
        for p in lineage(pc)[:-1]:
            for k in p.Locus:
                ctx.expect(same(pc[k], p[k], 0), 'a core reads another value than its ancestor holds', variable=k)
        ctx.close(pc.LogPrior, own_prior(net, pc), 'log prior of a core', tol=1e-6, group=pc.Group, values=vs)
        ctx.close(pc.DeepLogPrior, sum(own_prior(net, c) for c in subtree(pc)), 'deep log prior of a core', tol=1e-6)
        ctx.raises(KeyError, lambda: pc['not_in_network'], 'an unknown variable has a value')
        if pc.Children:
            nick = sorted(pc.Children)[0]
            ctx.raises(ValueError, lambda: pc.breed(nick, pc.Children[nick].Group), 'a nickname was used twice')
            ctx.expect(pc.get_child(nick) is pc.Children[nick] and pc.Children[nick].Parent is pc, 'a child is lost')
        ctx.raises(KeyError, lambda: pc.breed('zz', 'no_such_group'), 'bred into an unknown group')
    for k, v in w.exo.items():
        ctx.expect(w.root[k] == v, 'an exogenous value was changed', variable=k)
    # siblings: random variables declared in their group are drawn for each of them
    for pc in w.cores:
        kids = [c for c in pc.Children.values()]
        for a in kids:
            for b in kids:
                if a is not b and a.Group == b.Group:
                    for k in w.group[a.Group].fixed:
                        if net.is_rv(k) and net[k].law in ('norm', 'unif', 'gamma', 'exp', 'beta') and k in a.Locus \
                                and 1e-6 < abs(a[k]) < 1e6 and net[k].support(visible(a))[0] != a[k]:
                            ctx.expect(a[k] != b[k], 'siblings share a draw of their own', variable=k, group=a.Group)
                            ctx.count('sibling draws')


def within(net, k, core):
    lo, hi = net[k].support(visible(core))
    return lo <= core[k] <= hi


def given(ctx):
    """cores made with given values of their own random variables"""
    r = ctx.rng
    w = World(r, deterministic=False, n=r.randint(3, 8))
    net = w.net
    ctx.describe(**w.describe())
    again = w.sc.generate('again', exo={**w.exo, **{k: v for k, v in w.root.Locus.items() if k in net.nodes and net.is_rv(k)
                                                   and r.random() < .5}})
    ctx.close(again.LogPrior, own_prior(net, again), 'log prior of a root with given values', tol=1e-6, values=dict(again.Locus))
    # a given value may leave the support that newly drawn parents imply; the values are then only weighed, not drawn again
    if all(not net.is_rv(k) or within(net, k, again) for k in again.Locus if k in net.nodes):
        check_core(ctx, net, again, 'a root with given values')
    some = 0
    for pc in w.cores:
        if pc.Parent is None:
            continue
        pa, g = pc.Parent, w.group[pc.Group]
        own = {k: pc[k] for k in pc.Locus if k in net.nodes and net.is_rv(k) and k in g.fixed and r.random() < .7}
        before = dict(own)
        c = pa.breed('given_' + pc.Nickname, pc.Group, exo=own)
        ctx.expect(own == before, 'the given values were changed')
        for k, v in own.items():
            ctx.expect(same(c[k], v, 0), 'a given value was changed', variable=k)
            some += 1
        ctx.expect(set(c.Locus) == set(pc.Locus), 'variables of a core with given values', got=sorted(c.Locus))
        if all(within(net, k, c) for k in own):
            check_core(ctx, net, c, 'a core with given values')
        ctx.close(c.LogPrior, own_prior(net, c), 'log prior of a core with given values', tol=1e-6, given=own,
                  values=visible(c))
    if some:
        ctx.nontrivial((net.script(), w.groups.text()))
        ctx.count('given values', some)


def flat(ctx):
    """one group with everything fixed or everything floating"""
    r = ctx.rng
    net = rand_net(r, r.randint(1, 8) if r.random() < .95 else 30, deterministic=False)
    script = net.script(r)
    exo = exo_values(r, net)
    ctx.describe(script=script, exo=exo)
    ctx.nontrivial(script)
    sc = get_all_fixed_sc(script)
    pc = sc.generate('p', exo=exo)
    ctx.expect(set(pc.Locus) == set(net.nodes), 'variables of an all-fixed model', got=sorted(pc.Locus))
    check_core(ctx, net, pc)
    ctx.close(pc.LogPrior, own_prior(net, pc), 'log prior of an all-fixed model', tol=1e-6)
    ctx.expect(pc.list_actors() == [], 'samplers of an all-fixed model', got=pc.list_actors())
    free = find_free_parameters(sc, exo=exo)
    ctx.expect(sorted(free) == sorted(net.rv_roots()), 'free parameters', got=free, expected=net.rv_roots())
    sc = get_all_float_sc(script)
    pc = sc.generate('p', exo=exo)
    random = {k for k in net.nodes if net.is_rv(k) or any(net.is_rv(a) for a in net.ancestors(k))}
    ctx.expect(set(pc.list_actors()) == random, 'samplers of an all-floating model', got=sorted(pc.list_actors()),
               expected=sorted(random))
    ctx.expect(set(pc.Locus) == set(net.nodes) - random, 'values of an all-floating model', got=sorted(pc.Locus))
    check_core(ctx, net, pc)
    for k in random:
        xs = pc.get_sampler(k).sample(3)
        ctx.expect(len(xs) == 3, 'number of draws from a sampler')
    bn = build(r, net, 'json')
    sc = as_simulation_core(bn)
    pc = sc.generate(exo=exo)
    ctx.expect(pc.Nickname == bn.Name, 'name of a core without nickname', got=pc.Nickname)
    for k in sorted(net.leaves()):
        if net.is_rv(k):                      # by default, what nothing depends on is left floating
            ctx.expect(k in pc.list_actors() and k not in pc.Locus, 'a leaf of a model without groups is not floating', variable=k,
                       values=dict(pc.Locus), samplers=pc.list_actors())
            ctx.count('floating leaves')
    check_core(ctx, net, pc)


def later(ctx):
    """cores bred after values were changed read the values of now"""
    r = ctx.rng
    w = World(r, deterministic=True)
    net = w.net
    ctx.describe(**w.describe())
    cores = list(w.cores)
    log = []
    for turn in range(r.randint(2, 5)):
        pc = r.choice(cores)
        keys = [k for k in pc.Locus if k in net.nodes]
        if keys and r.random() < .8:
            imp = {k: any_value(r) for k in r.sample(keys, min(len(keys), r.randint(1, 2)))}
            pc.impulse(dict(imp))
            log.append(('impulse', pc.Nickname, imp))
        pa = r.choice([c for c in cores if w.group[c.Group].children] or [None])
        if pa is None:
            return
        g = r.choice(w.group[pa.Group].children)
        n = 'later_%d' % turn
        log.append(('breed', pa.Nickname, g.name, n))
        c = pa.breed(n, g.name)
        cores.append(c)
        w.cores.append(c)
        vs = visible(c)
        for k in c.Locus:
            if k in net.nodes and k not in w.exo and net[k].kind != 'exo':
                e = net[k].expected(vs)
                ctx.close(c[k], e, 'a core bred later disagrees with the values of now', variable=k, group=g.name, log=log, values=vs)
                ctx.nontrivial((net.script(), w.groups.text(), log))
                ctx.count('values of cores bred later')
        ctx.close(c.LogPrior, own_prior(net, c), 'log prior of a core bred later', tol=1e-6, log=log)


def laws(ctx):
    """what a core holds follows its law at the values of its ancestors"""
    r = ctx.rng
    m, s = round(r.uniform(-3, 3), 2), r.choice([.5, 1.0, 2.0])
    bn = bayes_net_from_script('PCore L {\n a ~ norm(%r, %r)\n f = 2 * a\n b ~ norm(f, 1)\n e ~ exp(%r)\n c ~ norm(b + e, 2)\n}'
                               % (m, s, s))
    ns = NodeSet('top', as_fixed=['a'])
    mid = ns.new_child('mid', as_fixed=['b', 'e'])
    mid.new_child('low', as_fixed=['c'])
    sc = as_simulation_core(bn, ns)
    n, phi = 200, LAWS['norm'].cdf
    ctx.describe(m=m, s=s)
    ctx.nontrivial((m, s))
    tops = [sc.generate('p%d' % i) for i in range(n)]
    pc = tops[0]
    us = {'a': [phi(p['a'], m, s) for p in tops]}
    for turn in range(3):
        xs = [pc.breed('x%d_%d' % (turn, i), 'mid') for i in range(n)]
        us['b%d' % turn] = [phi(x['b'], 2 * pc['a'], 1) for x in xs]
        us['e%d' % turn] = [LAWS['exp'].cdf(x['e'], s) for x in xs]
        ys = [xs[0].breed('y%d' % i, 'low') for i in range(n)]
        us['c%d' % turn] = [phi(y['c'], xs[0]['b'] + xs[0]['e'], 2) for y in ys]
        ys = [x.breed('y', 'low') for x in xs[1:]]
        us['d%d' % turn] = [phi(y['c'], x['b'] + x['e'], 2) for x, y in zip(xs[1:], ys)]
        # the noise of a child tells nothing about the noise of its parent
        pairs = list(zip(us['b%d' % turn][1:], us['d%d' % turn]))
        us['mixed%d' % turn] = [(x + y) % 1 for x, y in pairs]
        if turn == 0:
            pc.impulse({'a': round(r.uniform(-50, 50), 2)})
        else:
            pc = tops[1]
    for k, xs in us.items():
        dev = ks_stat(xs, lambda u: u)
        ctx.expect(dev < ks_critical(len(xs)), 'values of bred cores do not follow their law', values=k, deviation=dev)
        exchangeable(ctx, xs, 'values of bred cores', values=k)
    ctx.count('laws', len(us))


def redraws(ctx):
    """a simulation core draws a new set of values each time"""
    r = ctx.rng
    net = rand_net(r, r.randint(2, 7), laws=['norm', 'gamma', 'unif'], p_rv=.6)
    rv = [k for k in net.nodes if net.is_rv(k)]
    sc = get_all_fixed_sc(net.script(r))
    exo = exo_values(r, net)
    a, b = sc.generate('a', exo=exo), sc.generate('b', exo=exo)
    ctx.describe(script=net.script())
    ctx.nontrivial(net.script())
    for k in rv:
        lo, hi = net[k].support(dict(a.Locus))
        if 1e-6 < abs(a[k]) < 1e6 and a[k] not in (lo, hi):
            ctx.expect(a[k] != b[k], 'two cores share a draw', variable=k)
    ctx.expect(sc.generate('a', exo=exo) is not a, 'a core was reused')


WORKLOADS = [('trees', trees, 700, 14000), ('given', given, 400, 8000), ('flat', flat, 200, 4000), ('redraws', redraws, 60, 1000),
             ('later', later, 200, 4000), ('laws', laws, 6, 100)]
FLOOR = {'given': 60, 'trees': 150, 'flat': 60, 'redraws': 20, 'later': 60, 'laws': 3}
