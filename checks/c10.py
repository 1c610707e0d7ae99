"""C10: queries on graphs."""
from rtm.bnlib import build
from rtm.gen import rand_net, rand_names
from sims_pars.bayesnet import (DAG, merge_dag, minimal_dag, minimal_requirements, get_sufficient_nodes,
                                get_minimal_nodes, get_offsprings)

ID = 'C10'
RULE = ('random directed acyclic graphs of 2-14 (sometimes 45) nodes and random sets of targets and conditions, against set-based '
        'reachability; non-trivial if the graph has a path of two edges; distinct by edges and query')


class Ref:
    def __init__(self, nodes, edges):
        self.nodes, self.edges = set(nodes), set(edges)

    def pa(self, k):
        return {a for a, b in self.edges if b == k}

    def ch(self, k):
        return {b for a, b in self.edges if a == k}

    def up(self, ks, stop=()):
        seen, todo = set(), [k for k in ks]
        first = set(todo)
        while todo:
            x = todo.pop()
            if x in stop and x not in first:
                continue
            for p in self.pa(x):
                if p not in seen:
                    seen.add(p)
                    todo.append(p)
        return seen

    def down(self, ks):
        seen, todo = set(), list(ks)
        while todo:
            for c in self.ch(todo.pop()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return seen


def rand_graph(r):
    names = rand_names(r, r.randint(2, 14) if r.random() < .92 else r.randint(15, 45))
    edges = set()
    p = r.choice([.1, .25, .5]) if len(names) < 15 else r.choice([.03, .1])
    for i, b in enumerate(names):
        for a in names[:i]:
            if r.random() < p:
                edges.add((a, b))
    if r.random() < .3:
        # long chains with a few short cuts
        edges = set(zip(names, names[1:])) | set(r.sample(sorted(edges), min(len(edges), r.randint(0, 3))))
    ns, es = list(names), sorted(edges)
    r.shuffle(ns)
    r.shuffle(es)
    g = DAG()
    g.add_nodes_from(ns)
    g.add_edges_from(es)
    return g, Ref(names, edges)


def topological(ctx, order, ref, what):
    pos = {k: i for i, k in enumerate(order)}
    ctx.expect(len(pos) == len(order), what + ' repeats a node', got=order)
    for k in order:
        for a in ref.up([k]) & set(order):
            ctx.expect(pos[a] < pos[k], what + ' is not in topological order', got=order)


def state(g):
    return sorted(g.nodes()), sorted(g.edges())


def graphs(ctx):
    r = ctx.rng
    g, ref = rand_graph(r)
    before = state(g)
    ctx.describe(edges=sorted(ref.edges))
    if any(ref.pa(a) for a, b in ref.edges):
        ctx.nontrivial(sorted(ref.edges))
    order = g.order()
    ctx.expect(sorted(order) == sorted(ref.nodes), 'order of the graph', got=order)
    topological(ctx, order, ref, 'order of the graph')
    for k in ref.nodes:
        for what, got, want in (('parents', g.parents(k), ref.pa(k)), ('children', g.children(k), ref.ch(k)),
                                ('ancestors', g.ancestors(k), ref.up([k])), ('descendants', g.descendants(k), ref.down([k]))):
            ctx.expect(set(got) == want, what, node=k, got=got, expected=want, edges=sorted(ref.edges))
    ctx.expect(sorted(g.roots()) == sorted(k for k in ref.nodes if not ref.pa(k)), 'roots', got=g.roots())
    ctx.expect(sorted(g.leaves()) == sorted(k for k in ref.nodes if not ref.ch(k)), 'leaves', got=g.leaves())
    ctx.expect(g.check_acyclic(), 'an acyclic graph was taken as cyclic')
    for _ in range(4):
        some = r.sample(sorted(ref.nodes), r.randint(0, len(ref.nodes)))
        up = set().union(*[ref.up([k]) for k in some])
        down = ref.down(some)
        ctx.expect(set(g.upstream(some)) == up, 'upstream', nodes=some, got=g.upstream(some), expected=up)
        ctx.expect(set(g.downstream(some)) == down, 'downstream', nodes=some, got=g.downstream(some), expected=down)
        ctx.expect(set(get_offsprings(g, some)) == down, 'offsprings', nodes=some, got=get_offsprings(g, some), expected=down)
        s = g.sort(some)
        ctx.expect(sorted(s) == sorted(some), 'sort() changed the nodes', given=some, got=s)
        topological(ctx, s, ref, 'sort()')
        # what is needed for some, given others
        given = r.sample(sorted(ref.nodes), r.randint(0, len(ref.nodes) // 2))
        cut = Ref(ref.nodes, {(a, b) for a, b in ref.edges if b not in given})
        suf = set(some) | cut.up(some)
        got = set(get_sufficient_nodes(g, some, given))
        ctx.expect(got == suf, 'sufficient nodes', targets=some, given=given, got=got, expected=suf, edges=sorted(ref.edges))
        got = set(get_minimal_nodes(g, some, given))
        ctx.expect(got == suf - set(given), 'minimal nodes', targets=some, given=given, got=got, expected=suf - set(given))
        t = r.choice(sorted(ref.nodes))
        cond = [c for c in given if c != t]
        want = ref.up([t], stop=set(cond))
        got = minimal_requirements(g, t, cond)
        ctx.expect(set(got) == want, 'minimal requirements', target=t, given=cond, got=got, expected=want,
                   edges=sorted(ref.edges))
        topological(ctx, got, ref, 'minimal requirements')
        if len(some) <= 5 and len(ref.edges) <= 20:
            sub = minimal_dag(g, some)
            want = {k for k in ref.nodes if (k in some or ref.up([k]) & set(some)) and (k in some or ref.down([k]) & set(some))}
            ctx.expect(set(sub.nodes()) == want, 'minimal graph', nodes=some, got=set(sub.nodes()), expected=want)
            ctx.expect(set(sub.edges()) == {(a, b) for a, b in ref.edges if a in want and b in want}, 'edges of the minimal graph')
            ctx.count('minimal_dag')
    ctx.expect(state(g) == before, 'a query changed the graph')


def surgery(ctx):
    r = ctx.rng
    g, ref = rand_graph(r)
    h, ref2 = rand_graph(r)
    ctx.describe(edges=sorted(ref.edges))
    ctx.nontrivial(sorted(ref.edges))
    k = r.choice(sorted(ref.nodes))
    g1 = g.copy()
    g1.remove_in_edges(k)
    ctx.expect(set(g1.edges()) == {e for e in ref.edges if e[1] != k}, 'removing incoming edges', node=k, got=set(g1.edges()))
    g2 = g.copy()
    g2.remove_out_edges(k)
    ctx.expect(set(g2.edges()) == {e for e in ref.edges if e[0] != k}, 'removing outgoing edges', node=k, got=set(g2.edges()))
    m = merge_dag(g, h)
    ctx.expect(set(m.nodes()) == ref.nodes | ref2.nodes and set(m.edges()) == ref.edges | ref2.edges, 'merging graphs')
    ctx.expect(set(g.edges()) == ref.edges and set(h.edges()) == ref2.edges, 'surgery on a copy changed the graph')
    both = Ref(m.nodes(), set(m.edges()))
    cyclic = any(k in both.down([k]) for k in both.nodes)
    ctx.expect(m.check_acyclic() == (not cyclic), 'check_acyclic', got=m.check_acyclic(), edges=sorted(m.edges()))
    ctx.count('cyclic' if cyclic else 'acyclic')


def cycles(ctx):
    """a graph with one cycle, of any length"""
    r = ctx.rng
    g, ref = rand_graph(r)
    names = sorted(ref.nodes)
    loop = r.sample(names, r.choice([1, 1, 2, min(3, len(names)), len(names)]))
    extra = list(zip(loop, loop[1:] + loop[:1]))
    ctx.describe(edges=sorted(ref.edges), loop=loop)
    ctx.nontrivial((sorted(ref.edges), loop))
    ctx.expect(g.check_acyclic() is True or g.check_acyclic() == True, 'an acyclic graph was taken as cyclic')   # noqa: E712
    es = list(ref.edges) + extra
    r.shuffle(es)
    h = DAG()
    h.add_nodes_from(names)
    h.add_edges_from(es)
    ctx.expect(not h.check_acyclic(), 'a cyclic graph was taken as acyclic', loop=loop)
    g.add_edges_from(extra)
    ctx.expect(not g.check_acyclic(), 'a cyclic graph was taken as acyclic', loop=loop)
    if any(extra[0] == e for e in ref.edges):
        return
    both = Ref(ref.nodes, set(g.edges()) - {extra[0]})
    g.remove_edge(*extra[0])
    cyclic = any(k in both.down([k]) for k in both.nodes)
    ctx.expect(g.check_acyclic() == (not cyclic), 'check_acyclic after removing an edge', edges=sorted(g.edges()))


def randomness(ctx):
    """which variables still vary once others are known"""
    r = ctx.rng
    net = rand_net(r, r.randint(2, 12) if r.random() < .95 else 35, p_rv=.3, p_value=.5)
    bn = build(r, net)
    ctx.describe(script=net.script())
    ctx.nontrivial(net.script())
    for k in net.nodes:
        anc = net.ancestors(k)
        want = net.is_rv(k) or any(net.is_rv(a) for a in anc)
        ctx.expect(bool(bn.has_randomness(k)) == want, 'randomness of a variable', variable=k, got=not want)
        others = [x for x in net.nodes if x != k]
        given = r.sample(others, r.randint(0, len(others)))
        ref = Ref(net.nodes, {(p, c) for c in net.nodes for p in net.par[c]})
        req = ref.up([k], stop=set(given)) - set(given)
        want = net.is_rv(k) or any(net.is_rv(a) for a in req)
        ctx.expect(bool(bn.has_randomness(k, given)) == want, 'randomness of a variable given others', variable=k,
                   given=given, got=not want)


WORKLOADS = [('graphs', graphs, 900, 20000), ('surgery', surgery, 300, 5000), ('cycles', cycles, 200, 3000),
             ('randomness', randomness, 400, 6000)]
FLOOR = {'graphs': 300, 'surgery': 100, 'cycles': 60, 'randomness': 100}
