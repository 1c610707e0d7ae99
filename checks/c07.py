"""C07: histories of changes to a network."""
from rtm.bnlib import snapshot, TYPE, edges, build, full_env, check_meaning
from rtm.gen import Node, rand_expr, rand_net, rand_names, param_exprs, call_src, LAWNAMES, num, Net, sensitive, pseudo
from sims_pars.bayesnet import BayesianNetwork, parse_loci, bayes_net_from_json, bayes_net_from_script
from sims_pars.util import ScriptException

ID = 'C07'
RULE = ('random histories of definitions, redefinitions, cyclic and ill-formed definitions, freezing and defrosting on one '
        'network, compared with a table of definitions after every operation; non-trivial if a variable is redefined or a '
        'cycle rejected; distinct by history')


class Model:
    def __init__(self):
        self.nodes = {}

    def reach(self, k):
        """k and everything below it"""
        seen, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += [c for c, n in self.nodes.items() if x in n.parents]
        return seen

    def cyclic(self, n):
        return bool(n.parents & self.reach(n.name)) if n.name in self.nodes else n.name in n.parents

    def define(self, n):
        self.nodes[n.name] = n
        for p in sorted(n.parents):
            self.nodes.setdefault(p, Node(p, 'exo'))


def definition(r, names, kinds=()):
    k = r.choice(names)
    pas = r.sample(names, min(len(names), r.randint(0, 3)))
    t = r.choice(['value', 'func', 'dist', 'dist', 'exo', 'func'] + list(kinds))
    if t == 'value':
        e = num(r)
        return Node(k, t, expr=e, src=e.src(r))
    if t == 'func' and pas:
        e = rand_expr(r, pas, r.randint(0, 2), pas)
        return Node(k, t, expr=e, src=e.src(r))
    if t == 'exo':
        return Node(k, 'exo')
    if t == 'pseudo' and pas:
        return pseudo(k, pas)
    law = r.choice(LAWNAMES)
    src, eff = call_src(r, law, param_exprs(r, law, pas or names[:1], pas))
    return Node(k, 'dist', law=law, params=eff, src=src)


def agree(ctx, bn, m, r):
    net = Net('H', list(m.nodes.values()))
    ctx.expect(set(bn.DAG.nodes()) == set(net.nodes), 'variables of the network', got=sorted(bn.DAG.nodes()),
               expected=sorted(net.nodes))
    ctx.expect(set(bn.Order) == set(net.nodes), 'order of the network', got=bn.Order)
    ctx.expect(sorted(bn.Exo) == sorted(net.exo), 'exogenous variables', got=bn.Exo, expected=net.exo)
    ctx.expect(sorted(bn.Roots) == sorted(net.roots()) and sorted(bn.Leaves) == sorted(net.leaves()), 'roots or leaves',
               got=(bn.Roots, bn.Leaves), expected=(net.roots(), net.leaves()))
    ctx.expect(sorted(bn.RVRoots) == sorted(net.rv_roots()), 'random roots', got=bn.RVRoots, expected=net.rv_roots())
    if r.random() < .3:
        js = bn.to_json()
        ctx.expect(sorted(x['Name'] for x in js['Nodes']) == sorted(net.nodes) and sorted(js['Order']) == sorted(net.nodes)
                   and sorted(js['Exo']) == sorted(net.exo) and sorted(js['Roots']) == sorted(net.roots())
                   and sorted(js['Leaves']) == sorted(net.leaves()), 'JSON form of an edited network', got=js)
        for how, b2 in (('script', bayes_net_from_script(bn.to_script())), ('json', bayes_net_from_json(js)), ('copy', bn.copy())):
            ctx.expect(edges(b2) == edges(bn) and set(b2.DAG.nodes()) == set(net.nodes),
                       'an edited network differs from its ' + how, got=snapshot(b2), expected=snapshot(bn))
            check_meaning(ctx, b2, net, full_env(r, net))
    check_meaning(ctx, bn, net, full_env(r, net))


def histories(ctx):
    r = ctx.rng
    names = rand_names(r, r.randint(3, 8))
    bn, m = BayesianNetwork('H'), Model()
    log = []
    redefined = rejected = 0
    for step in range(r.randint(3, 14)):
        if r.random() < .12:
            if bn.is_frozen():
                bn.defrost()
                log.append('defrost')
            else:
                bn.complete()
                log.append('complete')
            ctx.expect(bn.is_frozen() == (log[-1] == 'complete'), 'is_frozen', history=log)
            agree(ctx, bn, m, r)
            continue
        n = definition(r, names, ['pseudo'])
        df = n.definition(r)
        log.append(df)
        before = snapshot(bn)
        add = (lambda: bn.append_from_definition(df)) if r.random() < .5 else \
            (lambda: bn.append_from_js(parse_loci(df)[0].to_json()))
        if bn.is_frozen():
            ctx.raises(AttributeError, add, 'a frozen network accepted a definition', history=log)
            ctx.expect(snapshot(bn) == before, 'a rejected definition changed a frozen network', history=log)
            ctx.count('rejected_frozen')
        elif m.cyclic(n):
            ctx.raises(AttributeError, add, 'a cyclic definition was accepted', history=log)
            after = snapshot(bn)
            ctx.expect(after == before, 'a rejected cyclic definition changed the network', history=log,
                       before=before, after=after)
            rejected += 1
            ctx.count('rejected_cyclic')
        elif r.random() < .05:
            ctx.raises(ScriptException, lambda: bn.append_from_definition('%s :: 4' % n.name), 'ill-formed text accepted')
            ctx.expect(snapshot(bn) == before, 'ill-formed text changed the network', history=log)
        else:
            redefined += n.name in m.nodes
            add()
            m.define(n)
            ctx.count('defined')
        agree(ctx, bn, m, r)
    ctx.describe(history=log)
    if redefined or rejected:
        ctx.nontrivial(log)


def loops(ctx):
    """long dependences: only what closes a loop, of any length, is refused"""
    r = ctx.rng
    n = r.randint(3, 30)
    names = ['v%d' % i for i in range(n)]
    r.shuffle(names)
    bn, m = BayesianNetwork('L'), Model()
    order = list(range(n))
    if r.random() < .5:
        r.shuffle(order)

    def put(k, pas, expect=None):
        e = sensitive(r, pas) if pas else num(r)
        nd = Node(k, 'func' if pas else 'value', expr=e, src=e.src(r))
        cyc = m.cyclic(nd)
        before = snapshot(bn)
        if cyc:
            ctx.raises(AttributeError, lambda: bn.append_from_definition(nd.definition(r)), 'a cyclic definition was accepted',
                       definition=nd.src, variable=k)
            ctx.expect(snapshot(bn) == before, 'a rejected cyclic definition changed the network', variable=k)
            ctx.count('loops refused')
        else:
            bn.append_from_definition(nd.definition(r))
            m.define(nd)
        return cyc

    for i in order:
        pas = [names[i - 1]] if i else []
        if i > 2 and r.random() < .3:
            pas.append(names[r.randrange(i - 1)])
        put(names[i], pas)
    ctx.describe(names=names)
    ctx.nontrivial(names)
    for _ in range(6):
        i, j = sorted(r.sample(range(n), 2))
        x = r.random()
        if x < .6:                            # an early one upon a late one
            put(names[i], [names[j]] + ([names[i - 1]] if i and r.random() < .5 else []))
        elif x < .8:                          # a new link forward
            put(names[j], [names[i], names[j - 1]] if i != j - 1 else [names[i]])
        else:                                 # the chain is cut and may be closed the other way round
            put(names[j], [])
            put(names[i], [names[j]])
    agree(ctx, bn, m, r)


def frozen(ctx):
    """frozen networks answer the same questions in the same way, whatever is done to their copies"""
    r = ctx.rng
    net = rand_net(r, r.randint(2, 9))
    bn = build(r, net, complete=True)
    bn.complete()
    ctx.describe(script=net.script())
    ctx.nontrivial(net.script())
    env = full_env(r, net)
    before = snapshot(bn), bn.to_script(), list(bn.Order)
    for mk in (lambda: bn.copy(), lambda: bn.copy('other'), lambda: bn.clone()):
        b2 = mk()
        ctx.expect(b2.is_frozen(), 'the copy of a frozen network is not frozen')
        b2.defrost()
        k = r.choice(sorted(net.nodes))
        b2.append_from_definition('%s = 77' % k)
        b2.append_from_definition('brand_new = %s + 1' % k)
        ctx.expect(b2[k].render({}) == 77 and 'brand_new' in b2, 'a change to a defrosted copy is lost', variable=k)
        b2.complete()
        ctx.expect('brand_new' in b2.Order and 'brand_new' in b2.Leaves, 'a change is missing after freezing')
        ctx.expect((snapshot(bn), bn.to_script(), list(bn.Order)) == before, 'changing a copy changed the original',
                   variable=k)
    check_meaning(ctx, bn, net, env)


WORKLOADS = [('histories', histories, 700, 12000), ('frozen', frozen, 200, 3000), ('loops', loops, 150, 3000)]
FLOOR = {'loops': 40, 'loops refused': 100, 'histories': 200, 'frozen': 60}
