"""C06: the structure of a network is what the definitions say."""
from rtm.bnlib import build, check_order, check_meaning, edges, net_edges, full_env, TYPE
from rtm.gen import rand_net
from sims_pars.bayesnet import BayesianNetwork

ID = 'C06'
RULE = ('random networks of 1-25 variables built from scripts, definitions in any order, JSON or single variables; '
        'non-trivial if there is an edge; distinct by script')


def structure(ctx):
    r = ctx.rng
    n = r.choice([1, 2, 3, 5, 8, 12, 25])
    net = rand_net(r, n if r.random() < .95 else 45, des=r.random() < .3, max_pa=4, p_pseudo=r.choice([0, 0, .15]), p_exo=r.choice([.12, .12, .6, .9]))
    how = r.choice(['script', 'defs', 'json', 'loci'])
    bn = build(r, net, how)
    ctx.describe(script=net.script(), how=how, frozen=bn.is_frozen())
    if net_edges(net):
        ctx.nontrivial(net.script())
    ctx.count('frozen' if bn.is_frozen() else 'unfrozen')
    env = full_env(r, net)
    check_meaning(ctx, bn, net, env)
    for turn in range(2):
        check_structure(ctx, r, bn, net)
        # the same answers before and after freezing
        if bn.is_frozen():
            bn.defrost()
        else:
            bn.complete()
    check_meaning(ctx, bn, net, env)


def check_structure(ctx, r, bn, net):
    ctx.expect(bn.Name == net.name, 'name of the network', got=bn.Name)
    check_order(ctx, list(bn.Order), net)
    check_order(ctx, list(bn.DAG.order()), net)
    for what, got, want in (('Roots', bn.Roots, net.roots()), ('Leaves', bn.Leaves, net.leaves()),
                            ('Exo', bn.Exo, net.exo), ('RVRoots', bn.RVRoots, net.rv_roots())):
        ctx.expect(sorted(got) == sorted(want), what + ' of the network', got=sorted(got), expected=sorted(want),
                   frozen=bn.is_frozen())
    js = bn.to_json()
    ctx.expect(js['Name'] == net.name, 'name in the JSON form', got=js['Name'])
    check_order(ctx, list(js['Order']), net, 'Order in the JSON form')
    for what, want in (('Roots', net.roots()), ('Leaves', net.leaves()), ('Exo', net.exo)):
        ctx.expect(sorted(js[what]) == sorted(want), what + ' in the JSON form', got=js[what], expected=want)
    ctx.expect(sorted(d['Name'] for d in js['Nodes']) == sorted(net.nodes), 'variables in the JSON form',
               got=[d['Name'] for d in js['Nodes']])
    for d in js['Nodes']:
        ctx.expect(d['Type'] == TYPE[net[d['Name']].kind], 'kind in the JSON form', got=d, expected=net[d['Name']].kind)
    for k, n in net.nodes.items():
        ctx.expect(bn.is_rv(k) == (n.kind == 'dist'), 'is_rv', variable=k, kind=n.kind)
        ctx.expect(bool(bn.is_exogenous(k)) == (n.kind in ('exo', 'pseudo')), 'is_exogenous', variable=k, kind=n.kind)
        ctx.expect(bool(bn.needs_calculation(k)) == (n.kind in ('dist', 'func')), 'needs_calculation', variable=k, kind=n.kind)
        ctx.expect(bn[k].Name == k, 'a variable is found under another name', variable=k)
    ctx.expect('not_there' not in bn, 'an unknown variable is in the network')
    some = r.sample(sorted(net.nodes), r.randint(0, len(net.nodes)))
    for got in (bn.sort(some), bn.DAG.sort(some)):
        ctx.expect(sorted(got) == sorted(some), 'sort() changed the set of variables', got=got, given=some)
        pos = {k: i for i, k in enumerate(got)}
        for k in some:
            for a in net.ancestors(k) & set(some):
                ctx.expect(pos[a] < pos[k], 'sort() places a variable before its ancestor', got=got)


WORKLOADS = [('structure', structure, 900, 16000)]
FLOOR = {'structure': 250}
