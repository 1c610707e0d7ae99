"""C18: samplers of floating variables follow the current values."""
from rtm.core import same
from rtm.dists import LAWS, ks_stat, ks_critical, exchangeable
from rtm.hier import World, visible, floating_value
from rtm.gen import any_value, Net, Node, Var, Num, sensitive
from sims_pars import bayes_net_from_script, NodeSet, as_simulation_core

ID = 'C18'
RULE = ('random hierarchies over networks whose random variables are constants of their parents, so that every draw is '
        'predictable; samplers taken before and after random impulses, local and shared; non-trivial if a sampler has '
        'parents; distinct by script and hierarchy')


def check_samplers(ctx, w, held, log):
    net = w.net
    # first of all, before any sampler is taken anew
    for pc, k, shared, s in held:
        ctx.close(s(), floating_value(net, pc, k), 'draw from a sampler taken earlier', variable=k, group=pc.Group,
                  core=pc.Nickname, shared=shared, log=log, readable=visible(pc))
        ctx.count('draws from samplers taken earlier, asked first')
    for pc in w.cores:
        for shared in (True, False):
            ss = pc.get_samplers(shared)
            ctx.expect(set(ss) == set(pc.list_actors(shared)), 'names of the samplers')
            for k, s in ss.items():
                e = floating_value(net, pc, k)
                ctx.close(s(), e, 'draw from a sampler', variable=k, group=pc.Group, core=pc.Nickname, shared=shared,
                          log=log, readable=visible(pc))
                ctx.close(pc.get_sampler(k, shared)(), e, 'draw from a sampler', variable=k, group=pc.Group, log=log)
                ctx.expect(all(same(x, e) for x in s.sample(3)) and len(s.sample(3)) == 3 and same(s.sample(), e),
                           'several draws from a sampler', variable=k)
                ctx.count('draws')
                if net.par[k]:
                    ctx.nontrivial((net.script(), w.groups.text(), k))
    for pc, k, shared, s in held:
        ctx.close(s(), floating_value(net, pc, k), 'draw from a sampler taken earlier', variable=k, group=pc.Group,
                  core=pc.Nickname, shared=shared, log=log, readable=visible(pc))
        ctx.count('draws from samplers taken earlier')


def siblings(ctx):
    """several groups of children float the same variables of their parent"""
    following(ctx, siblings=True)


def following(ctx, siblings=False):
    r = ctx.rng
    w = World(r, deterministic=True, siblings=siblings)
    ctx.describe(**w.describe())
    held = []
    for pc in w.cores:
        if r.random() < .6:
            shared = r.random() < .5
            held += [(pc, k, shared, s) for k, s in pc.get_samplers(shared).items()]
    log = []
    if r.random() < .7:
        check_samplers(ctx, w, held, log)
    for _ in range(r.randint(1, 4)):
        pc = r.choice(w.cores) if r.random() < .6 else w.root
        keys = [k for k in pc.Locus if k in w.net.nodes]
        if not keys:
            continue
        imp = {k: any_value(r) for k in r.sample(keys, min(len(keys), r.randint(1, 2)))}
        log.append((pc.Nickname, imp))
        pc.impulse(imp)
        if r.random() < .6:
            check_samplers(ctx, w, held, log)
    check_samplers(ctx, w, held, log)


def prepared(ctx):
    """samplers prepared on a parent for the children of a group"""
    r = ctx.rng
    w = World(r, deterministic=True)
    ctx.describe(**w.describe())
    net = w.net
    for pc in w.cores:
        for g in w.group[pc.Group].children:
            acts = pc.get_child_samplers(g.name)
            kids = [c for c in pc.Children.values() if c.Group == g.name]
            for c in kids:
                ctx.expect(set(c.list_actors()) == set(acts), 'samplers prepared for a group', got=set(acts))
                for k, a in acts.items():
                    ctx.close(a.sample(c), floating_value(net, c, k), 'draw prepared for a group', variable=k, group=g.name)
                    ctx.nontrivial((net.script(), g.name, k))
    ctx.raises(AssertionError, lambda: w.root.get_child_samplers('no_such_group'), 'samplers for an unknown group')


def batches(ctx):
    """any number of draws at once, of variables with and without random parents"""
    r = ctx.rng
    m, s = round(r.uniform(-2, 2), 2), round(r.uniform(.5, 2), 2)
    bn = bayes_net_from_script('PCore B {\n m = %r\n s = %r\n x ~ norm(m, s)\n z ~ norm(x, s)\n u ~ unif(m, m + s)\n'
                               ' g ~ gamma(s, 2)\n k ~ pois(s + 1)\n f = z * 2\n o ~ norm(0, 1)\n}' % (m, s))
    top = ['x'] if r.random() < .5 else []
    ns = NodeSet('top', as_fixed=['m', 's'] + top)
    ns.new_child('low', as_floating=[k for k in ('x', 'z', 'u', 'g', 'f', 'k', 'o') if k not in top])
    top = as_simulation_core(bn, ns).generate('t')
    low = top.breed('l', 'low')
    n = r.choice([2, 3, 5, 10, 13, 20, 21, 25, 37, 50, 64, 99, 100, 101, 128, 137, 250, 333, 1001])
    shared = r.random() < .5
    ctx.describe(m=m, s=s, n=n, shared=shared)
    ctx.nontrivial((m, s, n))
    for k in low.list_actors():
        smp = low.get_sampler(k, shared)
        xs = smp.sample(n)
        ctx.expect(len(xs) == n, 'number of draws', got=len(xs), expected=n, variable=k)
        if k != 'k':
            ctx.expect(len({float(x) for x in xs}) == n, 'draws of a sampler repeat', variable=k, n=n, distinct=len(set(xs)))
        if k == 'u':
            ctx.expect(all(m - 1e-9 <= x <= m + s + 1e-9 for x in xs), 'a draw outside its support', variable=k)
        ctx.count('draws in batches', n)
        one = [smp.sample(1), smp.sample(), smp()]
        ctx.expect(all(isinstance(float(x), float) for x in one), 'a single draw', variable=k)


def laws(ctx):
    """draws of a floating variable follow its law at the current values"""
    r = ctx.rng
    m, s = round(r.uniform(-2, 2), 2), round(r.uniform(.5, 2), 2)
    lines = ['m = %r' % m, 's = %r' % s, 'mid ~ norm(m, s)', 'x ~ norm(mid, 0.5)', 'y = x * 2', 'u ~ unif(m, m + s)']
    r.shuffle(lines)
    bn = bayes_net_from_script('PCore W {\n%s\n}' % '\n'.join(lines))
    ns = NodeSet('top', as_fixed=['m', 's'])
    ns.new_child('low', as_floating=['x', 'u', 'y'])
    sc = as_simulation_core(bn, ns)
    top = sc.generate('t')
    low = top.breed('l', 'low')
    ctx.describe(m=m, s=s)
    ctx.nontrivial((m, s, lines))
    n = r.choice([200, 203, 217])
    Phi = LAWS['norm'].cdf
    for turn in range(2):
        for shared in (True, False):
            for k, cdf in (('x', lambda v: Phi(v, m, (s * s + .25) ** .5)), ('y', lambda v: Phi(v / 2, m, (s * s + .25) ** .5)),
                           ('u', lambda v: min(1, max(0, (v - m) / s)))):
                smp = low.get_sampler(k, shared)
                xs = smp.sample(n) if r.random() < .5 else [smp() for _ in range(n)]
                dev = ks_stat(xs, cdf)
                ctx.expect(dev < ks_critical(n), 'draws of a sampler do not follow the law', variable=k, deviation=dev,
                           shared=shared, after_impulse=bool(turn))
                ctx.expect(len(set(xs)) == n, 'draws of a sampler repeat', variable=k)
                exchangeable(ctx, [float(cdf(x)) for x in xs], 'draws of a sampler', variable=k, shared=shared)
                bs = [[float(cdf(x)) for x in smp.sample(2)] for _ in range(150)]
                exchangeable(ctx, [u for b in bs for u in b], 'batches of two', variable=k, shared=shared)
        m, s = m + r.choice([-3, 3]), s * 1.5
        top.impulse({'m': m, 's': s})


WORKLOADS = [('following', following, 700, 14000), ('siblings', siblings, 150, 3000), ('prepared', prepared, 150, 3000), ('laws', laws, 24, 400), ('batches', batches, 40, 800)]
FLOOR = {'siblings': 60, 'following': 150, 'prepared': 40, 'laws': 10, 'batches': 20}
