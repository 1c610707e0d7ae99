"""C19: impulses on a hierarchy of cores."""
import math
from rtm.core import same
from rtm.dists import LAWS, ks_stat, ks_critical
from rtm.gen import any_value
from rtm.hier import World, floating_value, visible, subtree, own_prior, lineage
from sims_pars import bayes_net_from_script, NodeSet, as_simulation_core

ID = 'C19'
RULE = ('random hierarchies and random sequences of impulses (given values, redraws, lists of variables) on random cores; '
        'every value and prior in the whole tree is checked after each; non-trivial if a value below is recomputed; '
        'distinct by script, hierarchy and impulses')


def impulses(ctx):
    r = ctx.rng
    det = r.random() < .5
    w = World(r, deterministic=det, siblings=r.random() < .15)
    net = w.net
    if r.random() < .02:                      # a large family
        leaves = [(c, g) for c in w.cores for g in w.group[c.Group].children if not g.children]
        if leaves:
            c, g = r.choice(leaves)
            w.cores += [c.breed('many_%d' % i, g.name) for i in range(r.choice([20, 40]))]
            ctx.count('large families')
    ctx.describe(**w.describe())
    log = []
    held = []
    if r.random() < .5:
        for pc in w.cores:
            shared = r.random() < .5
            held += [(pc, k, s) for k, s in pc.get_samplers(shared).items()]
    for _ in range(r.randint(1, 4)):
        pc = r.choice(w.cores) if r.random() < .5 else w.root
        keys = [k for k in pc.Locus if k in net.nodes]
        chosen = r.sample(keys, min(len(keys), r.randint(0, 3)))
        as_list = r.random() < .2
        if as_list:
            chosen = [k for k in chosen if net[k].kind != 'exo' or True]
            imp = list(chosen)
            given, again = {}, set(chosen)
        else:
            imp = {}
            for k in chosen:
                if net[k].kind == 'dist' and r.random() < .3:
                    imp[k] = None
                elif net.is_rv(k) and not det:
                    lo, hi = net[k].support(visible(pc))
                    v = pc[k]
                    imp[k] = (v + r.randint(0, 2) if LAWS[net[k].law].integer and v + 2 <= hi else v) if not (lo == -math.inf) \
                        else v + r.uniform(-1, 1)
                else:
                    imp[k] = any_value(r)
            given = {k: v for k, v in imp.items() if v is not None}
            again = {k for k, v in imp.items() if v is None}
        log.append((pc.Nickname, imp))
        shocked = set(again)
        for k in chosen:
            shocked |= net.descendants(k)
        shocked -= set(given)
        before = {id(c): (dict(c.Locus), c.LogPrior) for c in w.cores}
        arg = type(imp)(imp)
        pc.impulse(arg)
        ctx.expect(arg == imp, 'an impulse changed its argument')
        sub = subtree(pc)
        for c in w.cores:
            old, old_prior = before[id(c)]
            vs = visible(c)
            ctx.expect(set(c.Locus) == set(old), 'an impulse changed the variables of a core', core=c.Nickname, log=log)
            if c not in sub:
                ctx.expect(dict(c.Locus) == old and same(c.LogPrior, old_prior), 'an impulse reached a core outside',
                           core=c.Nickname, log=log, before=old, after=dict(c.Locus))
                continue
            for k, v in c.Locus.items():
                if k in given:
                    ctx.expect(same(v, given[k], 0), 'an impulse did not set a value', variable=k, core=c.Nickname, log=log)
                elif k in shocked:
                    n = net[k]
                    if c is not pc or k not in chosen:
                        ctx.nontrivial((net.script(), w.groups.text(), log))
                    ctx.count('recomputed')
                    e = n.expected(vs)
                    if e is not None:
                        ctx.close(v, e, 'a descendant was not recomputed', variable=k, core=c.Nickname, log=log, values=vs)
                    elif n.kind == 'dist':
                        lo, hi = n.support(vs)
                        ctx.expect(lo <= v <= hi, 'a redrawn value is outside its support', variable=k, log=log, values=vs)
                        if n.law == 'norm' and abs(v) < 1e6 and n.param_values(vs)['sd'] > 1e-3 or \
                                n.law in ('gamma', 'exp', 'unif', 'beta') and abs(v) < 1e6 and \
                                min(abs(v - lo), abs(v - hi)) > 1e-9:
                            ctx.expect(v != old[k], 'a descendant was not redrawn', variable=k, core=c.Nickname, log=log)
                            ctx.count('redrawn')
                    else:
                        ctx.expect(same(v, old[k], 0), 'an exogenous value was redrawn', variable=k)
                else:
                    ctx.expect(same(v, old[k], 0), 'an impulse changed an unrelated variable', variable=k,
                               core=c.Nickname, log=log, before=old[k], after=v)
            ctx.close(c.LogPrior, own_prior(net, c), 'log prior after an impulse', tol=1e-6, core=c.Nickname, log=log, values=vs)
            if any(k in shocked or k in given for k in c.Locus):
                ctx.expect(not c.is_evaluated(), 'the log probability is kept after an impulse', core=c.Nickname, log=log)
        if det:
            # what remains to be drawn depends on the same values
            for c, k, s in held:
                ctx.close(s(), floating_value(net, c, k), 'a floating variable does not depend on the values after an impulse',
                          variable=k, core=c.Nickname, log=log)
                ctx.count('floating variables after impulses')
        ctx.close(w.root.DeepLogPrior, sum(own_prior(net, c) for c in w.cores), 'deep log prior after an impulse', tol=1e-6,
                  log=log)


def laws(ctx):
    """what an impulse draws again follows its law at the values now readable"""
    r = ctx.rng
    m, s, v = round(r.uniform(-3, 3), 2), r.choice([.5, 1.0, 2.0]), round(r.uniform(-9, 9), 2)
    bn = bayes_net_from_script('PCore L {\n a ~ norm(%r, %r)\n f = 2 * a\n b ~ norm(f, 1)\n c ~ norm(b, 2)\n}' % (m, s))
    ns = NodeSet('top', as_fixed=['a'])
    mid = ns.new_child('mid', as_fixed=['b'])
    mid.new_child('low', as_fixed=['c'])
    pc = as_simulation_core(bn, ns).generate('p')
    x = pc.breed('x', 'mid')
    y = x.breed('y', 'low')
    x2 = pc.breed('x2', 'mid')
    ctx.describe(m=m, s=s, v=v)
    ctx.nontrivial((m, s, v))
    n, phi = 200, LAWS['norm'].cdf
    for core, imp in ((pc, {'a': None}), (pc, {'a': v}), (pc, ['a']), (x, {'b': None}), (x, {'b': v}), (x, ['b']), (y, {'c': None})):
        rows = []
        for _ in range(n):
            core.impulse(type(imp)(imp))
            rows.append((pc['a'], x['b'], y['c'], x2['b']))
        law = {'a': lambda t: t[0] - m, 'b': lambda t: t[1] - 2 * t[0], 'c': lambda t: t[2] - t[1], 'b2': lambda t: t[3] - 2 * t[0]}
        sd = {'a': s, 'b': 1.0, 'c': 2.0, 'b2': 1.0}
        new = {pc: ['b', 'c', 'b2'], x: ['c'], y: []}[core]
        new = new + [k for k in imp if not isinstance(imp, dict) or imp[k] is None]
        for k in new:
            dev = ks_stat([law[k](t) for t in rows], lambda z: phi(z, 0, sd[k]))
            ctx.expect(dev < ks_critical(n), 'a variable drawn by an impulse does not follow its law', variable=k,
                       impulse=imp, core=core.Nickname, deviation=dev)
        if core is pc:
            ctx.expect(all(t[1] != t[3] for t in rows), 'siblings share a draw', impulse=imp)
        ctx.count('laws', len(new))


WORKLOADS = [('impulses', impulses, 1000, 20000), ('laws', laws, 16, 300)]
FLOOR = {'impulses': 200, 'laws': 8}
