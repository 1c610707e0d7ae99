"""C35: where the variables of a network are placed in a hierarchy."""
import contextlib
import io
from rtm.bnlib import build
from rtm.core import same
from rtm.gen import rand_net, exo_values
from rtm.hier import World, rand_groups, layered_groups, sibling_groups, share_floating
from sims_pars import NodeSet, as_simulation_core, bayes_net_from_script

ID = 'C35'
RULE = ('random networks and random hierarchies of groups, the same ones stated in several ways (order of assignments and of '
        'definitions), placed again, placed after a defrost, copied, and hierarchies which are not possible; distinct by '
        'script and hierarchy')


def hierarchy(r, net):
    while True:
        x = r.random()
        g = rand_groups(r, net, r.choice([2, 2, 3])) if x < .5 else layered_groups(r, net, r.choice([2, 3, 5])) if x < .85 \
            else sibling_groups(r, net)
        if g is not None:
            if r.random() < .2:
                share_floating(r, net, g)
            return g


def restated(r, g):
    """the same hierarchy with its assignments stated in another order"""
    fx, fl = sorted(g.fixed), sorted(g.floating)
    r.shuffle(fx)
    r.shuffle(fl)
    ns = NodeSet(g.name, as_fixed=fx, as_floating=fl)
    for c in g.children:        # a value which does not vary may be held again, depending on the order of the children
        ns.add_child(restated(r, c))
    return ns


def placement(sc, groups):
    out = {}
    for g in groups.walk():
        sg = sc[g.name]
        out[g.name] = dict(fixed=sorted(sg.Fixed), floating=sorted(sg.Floating), exogenous=sorted(sg.Exogenous),
                           listening=sorted(sg.Listening), children=sorted(sg.Children),
                           local={k: (v.Type, sorted(v.ToRead), sorted(v.ToSample)) for k, v in sorted(sg.LocalActors.items())},
                           shared={k: (v.Type, sorted(v.ToRead), sorted(v.ToSample)) for k, v in sorted(sg.SharedActors.items())})
    return out


def placed(ctx, net, groups, sc):
    """the lists of the groups against the assignments and the network"""
    assigned = {k for g in groups.walk() for k in list(g.fixed) + list(g.floating)}
    for g in groups.walk():
        sg = sc[g.name]
        fixed, floating = list(sg.Fixed), set(sg.Floating)
        above = {k for a in g.above for k in sc[a.name].Fixed}
        afloat = {k for a in g.above for k in sc[a.name].Floating}
        ctx.expect(len(set(fixed)) == len(fixed), 'a group fixes a variable twice', group=g.name, fixed=fixed)
        ctx.expect(not set(fixed) & floating, 'a variable is both fixed and floating in a group', group=g.name, fixed=fixed, floating=sorted(floating))
        ctx.expect(set(fixed) | floating <= set(net.nodes), 'a group holds something unknown', group=g.name)
        for k in g.fixed:
            ctx.expect(k in fixed or k in above, 'a variable assigned as fixed is not fixed', group=g.name, variable=k)
            ctx.expect(k in fixed or not net.is_rv(k), 'a random variable assigned as fixed is fixed elsewhere', group=g.name, variable=k)
        for k in g.floating:
            ctx.expect(k in floating or not net.is_rv(k), 'a random variable assigned as floating is not floating', group=g.name, variable=k)
            ctx.expect(k in floating or k in fixed or k in above, 'a variable assigned as floating is lost', group=g.name, variable=k)
        pos = {k: i for i, k in enumerate(fixed)}
        for k in fixed:
            for a in net.ancestors(k):
                ctx.expect(a not in pos or pos[a] < pos[k], 'fixed variables are not in an order to compute', group=g.name, order=fixed)
            for p in net.par[k]:
                ctx.expect(p in pos or p in above or p in sg.Exogenous, 'a parent of a fixed variable is neither held nor asked for',
                           group=g.name, variable=k, parent=p, fixed=fixed, above=sorted(above), exogenous=sg.Exogenous)
        # what was not assigned is where all it needs can be read or drawn
        for k in sorted(floating - assigned):
            ctx.expect(all(p in pos or p in above or p in floating or p in afloat or net[p].kind == 'exo' for p in net.par[k]),
                       'a floating variable depends on what is neither held nor floating in reach', group=g.name, variable=k,
                       parents=net.par[k], fixed=fixed, above=sorted(above), floating=sorted(floating | afloat))
        for k in sg.Exogenous:
            ctx.expect(k in above or net[k].kind == 'exo', 'a group asks for what nothing above it holds', group=g.name, variable=k)
        for k in sg.Listening:
            ctx.expect(k in above or k in fixed or k in floating or k in afloat or net[k].kind == 'exo', 'a group listens to what is nowhere',
                       group=g.name, variable=k)
        ctx.expect(sorted(sg.Children) == sorted(c.name for c in g.children), 'children of a group', group=g.name, got=sg.Children)
        js = sg.to_json()
        ctx.expect(js['Name'] == g.name and js['BeFixed'] == fixed and set(js['BeFloating']) == floating and
                   sorted(js['Exogenous']) == sorted(sg.Exogenous) and sorted(js['Listening']) == sorted(sg.Listening) and
                   sorted(js['Children']) == sorted(sg.Children), 'JSON of a group', got=js)
        for table in (sg.LocalActors, sg.SharedActors):
            for k, bp in table.items():
                known = set(fixed) | above | {x for x in net.nodes if net[x].kind == 'exo'}
                ctx.expect(set(bp.ToRead) <= known, 'a sampler reads what is not held', group=g.name, variable=k, reads=bp.ToRead)
                todo = list(bp.ToSample)
                ctx.expect(not set(todo) & (set(fixed) | above), 'a sampler draws what is held', group=g.name, variable=k, draws=todo)
                have = set(bp.ToRead)
                for x in todo + [k]:
                    ctx.expect(set(net.par[x]) <= have, 'a sampler draws before it can', group=g.name, variable=k, step=x, flow=todo,
                               reads=bp.ToRead)
                    have.add(x)
                ctx.count('blueprints')


def places(ctx):
    r = ctx.rng
    net = rand_net(r, r.randint(2, 9) if r.random() < .93 else r.randint(15, 25), p_exo=.1, p_value=.35, deterministic=r.random() < .2)
    groups = hierarchy(r, net)
    ctx.describe(script=net.script(), groups=groups.text())
    ctx.nontrivial((net.script(), groups.text()))
    bn = build(r, net, r.choice(['script', 'json']))
    sc = as_simulation_core(bn, groups.node_set(r))
    placed(ctx, net, groups, sc)
    first = placement(sc, groups)
    ctx.expect(sc.RootSG == groups.name and set(sc.SGs) == {g.name for g in groups.walk()}, 'groups of a model', got=sorted(sc.SGs))
    chain = all(len(g.children) <= 1 for g in groups.walk())
    held = {k for g in groups.walk() for k in list(sc[g.name].Fixed) + list(sc[g.name].Floating)}
    if chain:
        lost = {k for k in net.nodes if k not in held and net[k].kind != 'exo'}
        ctx.expect(not lost, 'a variable is placed nowhere', lost=sorted(lost))
        ctx.count('chains')
    # the order in which things are stated does not matter
    ns = restated(r, groups)
    again = as_simulation_core(build(r, net, r.choice(['script', 'json', 'defs'])) if r.random() < .7 else bn, ns)
    ctx.expect(placement(again, groups) == first, 'the placement depends on the order of statements', first=first,
               second=placement(again, groups))
    # used hierarchies are closed
    for f in (lambda: ns.inject_bn(bn), lambda: ns.new_child('late'), lambda: ns.add_child(NodeSet('late'))):
        ctx.raises(AssertionError, f, 'a hierarchy in use was changed')
    ctx.expect(placement(again, groups) == first, 'a refused change changed the placement')
    for f in (lambda: sc['no_such_group'], lambda: sc.get('no_such_group')):
        ctx.raises(KeyError, f, 'an unknown group')
    # placed again
    ns.defrost()
    third = as_simulation_core(bn, ns)
    ctx.expect(placement(third, groups) == first, 'the placement differs after a defrost', first=first, second=placement(third, groups))
    # placed in another network of the same variables first
    if r.random() < .5:
        ns.defrost()
        kinds = dict(p_exo=.1, p_value=r.choice([0, .35, .9]), p_rv=r.choice([0, .45, 1]))
        other = rand_net(r, 0, names=list(net.nodes), **kinds)
        outcomes = []
        for n in (ns, restated(r, groups)):
            try:
                outcomes.append(placement(as_simulation_core(build(r, other), n), groups))
            except AssertionError:
                outcomes.append(None)
        ctx.expect(outcomes[0] == outcomes[1], 'the placement in a second network depends on the first', got=outcomes[0],
                   fresh=outcomes[1], second=other.script())
        ns.defrost()
        back = as_simulation_core(bn, ns)
        ctx.expect(placement(back, groups) == first, 'the placement differs after another network', first=first, second=placement(back, groups))
        ctx.count('replaced')
    # copies and use
    exo = exo_values(r, net)
    for other in (sc, again, third):
        other.generate('p', exo=exo)
    dup = sc.clone()
    ctx.expect(placement(dup, groups) == first and placement(sc, groups) == first, 'placement of a copy or after use',
               copied=placement(dup, groups), first=first)
    ctx.expect(all(dup[g.name] is not sc[g.name] and dup[g.name].SC is dup and sc[g.name].SC is sc for g in groups.walk()),
               'groups of a copy belong to the original')
    a, b = sc.generate('p', exo=exo), dup.generate('p', exo=exo)
    ctx.expect(set(a.Locus) == set(b.Locus) and set(a.list_actors()) == set(b.list_actors()), 'cores of a copied model')
    js = sc.to_json()
    ctx.expect(js['Root'] == groups.name and js['BayesianNetwork'] == bn.to_json(), 'JSON of a model')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sc.deep_print()
    text = out.getvalue()
    ctx.expect(all('NodeSet ' + g.name in text for g in groups.walk()) and all(repr(k) in text for k in held), 'printing a model')


def impossible(ctx):
    """floating variables on which variables fixed beside them depend"""
    r = ctx.rng
    while True:
        net = rand_net(r, r.randint(2, 9), p_value=.3)
        pairs = [(a, b) for b in net.nodes for a in net.ancestors(b) if net[a].kind != 'exo']
        if pairs:
            break
    a, b = r.choice(sorted(pairs))
    rest = [k for k in net.nodes if k not in (a, b)]
    more = [k for k in rest if r.random() < .2]
    ns = NodeSet('g', as_fixed={b} | set(more), as_floating={a})
    top, depth = ns, r.randint(0, 3)
    for i in range(depth):
        up = NodeSet('u%d' % i)
        up.add_child(top)
        if r.random() < .4:
            up.new_child('s%d' % i)
        top = up
    ctx.describe(script=net.script(), fixed=[b] + more, floating=a, depth=depth)
    ctx.nontrivial((net.script(), a, b, more, depth))
    bn = build(r, net)
    before = bn.to_script()
    ctx.raises(AssertionError, lambda: as_simulation_core(bn, top), 'a hierarchy which draws what its own fixed variables need was placed')
    ctx.expect(bn.to_script() == before, 'a refused hierarchy changed the network')


WORKLOADS = [('places', places, 900, 20000), ('impossible', impossible, 200, 3000)]
FLOOR = {'places': 300, 'impossible': 60, 'chains': 60, 'replaced': 100}
