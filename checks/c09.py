"""C09: merging and extending networks."""
from rtm.bnlib import build, check_meaning, check_order, full_env, snapshot
from rtm.gen import Net, Node, rand_net, rand_names, POOL
from checks.c07 import definition

ID = 'C09'
RULE = ('random pairs of networks with shared, redefined and new variables; non-trivial if a variable is redefined; '
        'distinct by the pair of scripts')


def ordered_net(r, names, name, skip=.45):
    """definitions whose parents precede them in a fixed order of names: no mixture of two such nets is cyclic"""
    ns = []
    for i, k in enumerate(names):
        if r.random() < skip:
            continue
        pool = [k] + names[:i]
        n = definition(r, pool[1:] or ['zz_exo'])
        n.name = k
        ns.append(n)
    if not ns:
        ns = [Node(names[0], 'exo')]
    return Net(name, ns)


def chain(r, name, links):
    out = []
    for k, pa in links:
        if pa == 'exo':
            out.append(Node(k, 'exo'))
            continue
        while True:
            d = definition(r, [pa] if pa else ['zz_exo'])
            if d.kind != 'exo' and d.parents == ({pa} if pa else set()):
                break
        d.name = k
        out.append(d)
    return Net(name, out)


def defined(net):
    return {k: n for k, n in net.nodes.items() if n.kind != 'exo'}


def merging(ctx):
    r = ctx.rng
    names = rand_names(r, r.randint(3, 9))
    free = r.random() < .3
    shuffled = list(names)
    r.shuffle(shuffled)
    a, b = ordered_net(r, names, 'A'), ordered_net(r, shuffled if free else names, 'B')
    if r.random() < .2:                       # everything depends the other way round
        b = ordered_net(r, names[::-1], 'B', skip=r.choice([0, .1, .2]))
        ctx.count('reversed')
    if r.random() < .1:                       # x <- m <- n, where n comes to depend on x, and m on nothing
        n, m_, x = names[:3]
        a = chain(r, 'A', [(n, None), (m_, n), (x, m_)])
        b = chain(r, 'B', [(x, 'exo'), (n, x), (m_, None)])
        ctx.count('turned')
    A, B = build(r, a), build(r, b, r.choice([None, 'defs']))
    fa, fb = (lambda x: x * 2), (lambda x: x + 1)
    A.add_user_defined_func('fa', fa)
    B.add_user_defined_func('fb', fb)
    fc = (lambda x: x * 3), (lambda x: x * 4)
    A.add_user_defined_func('fc', fc[0])
    B.add_user_defined_func('fc', fc[1])
    before = snapshot(A), snapshot(B)
    ctx.describe(a=a.script(), b=b.script())
    m = {k: n for k, n in a.nodes.items()}
    m.update(defined(b))
    net = Net('AB', list(m.values()))
    net.par = {k: set(n.parents) for k, n in net.nodes.items()}
    cyclic = any(k in net.ancestors(k) for k in net.nodes)
    if cyclic:
        ctx.count('cyclic')
        ctx.raises(AttributeError, lambda: A.merge('AB', B), 'a cyclic merge was accepted')
        ctx.expect((snapshot(A), snapshot(B)) == before, 'a rejected merge changed its inputs')
        return
    got = A.merge('AB', B)
    ctx.expect((snapshot(A), snapshot(B)) == before, 'merging changed its inputs')
    # exogenous variables nobody needs are dropped
    keep = [n for k, n in net.nodes.items() if n.kind != 'exo' or net.chd[k]]
    net = Net('AB', keep)
    ctx.expect(got.Name == 'AB', 'name of the merged network', got=got.Name)
    ctx.expect(set(got.DAG.nodes()) == set(net.nodes), 'variables of the merged network', got=sorted(got.DAG.nodes()),
               expected=sorted(net.nodes))
    ctx.expect(sorted(got.Exo) == sorted(net.exo), 'exogenous variables of the merged network', got=got.Exo)
    check_order(ctx, list(got.Order), net)
    check_meaning(ctx, got, net, full_env(r, net))
    ctx.expect(got.UserDefinedFunctions.get('fa') is fa and got.UserDefinedFunctions.get('fb') is fb and got.UserDefinedFunctions.get('fc') is fc[1],
               'user functions of the merged network', got=list(got.UserDefinedFunctions))
    if set(defined(a)) & set(defined(b)):
        ctx.nontrivial((a.script(), b.script()))
    ctx.raises(AssertionError, lambda: A.merge('A', B), 'merged under the name of an input')


def extending(ctx):
    r = ctx.rng
    names = rand_names(r, r.randint(3, 9))
    a, b = ordered_net(r, names, 'A'), ordered_net(r, names, 'B')
    A, B = build(r, a), build(r, b)
    override = r.random() < .6
    ctx.describe(a=a.script(), b=b.script(), override=override)
    before = snapshot(A)
    m = dict(b.nodes)
    for k, n in a.nodes.items():
        if k in b.nodes and n.kind == 'exo':
            continue
        if override or k not in b.nodes:
            m[k] = n
    net = Net('B', list(m.values()))
    got = A.extend(B, override=override) if r.random() < .8 or not override else A.extend(B)
    ctx.expect(snapshot(A) == before, 'extending changed the source')
    ctx.expect(got.is_frozen() and got.Name == 'B', 'the extended network', got=repr(got))
    ctx.expect(set(got.DAG.nodes()) == set(net.nodes), 'variables of the extended network', got=sorted(got.DAG.nodes()),
               expected=sorted(net.nodes))
    ctx.expect(sorted(got.Exo) == sorted(net.exo), 'exogenous variables of the extended network', got=got.Exo)
    check_order(ctx, list(got.Order), net)
    check_meaning(ctx, got, net, full_env(r, net))
    if set(defined(a)) & set(defined(b)):
        ctx.nontrivial((a.script(), b.script(), override))
    C = A.extend()
    ctx.expect(set(C.DAG.nodes()) == set(a.nodes), 'variables of a network extended from nothing', got=C.DAG.nodes())
    check_meaning(ctx, C, a, full_env(r, a))


WORKLOADS = [('merging', merging, 700, 12000), ('extending', extending, 500, 8000)]
FLOOR = {'merging': 100, 'extending': 100}
