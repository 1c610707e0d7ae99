"""Hierarchies of groups over random networks, and their reference semantics."""
from sims_pars import NodeSet, as_simulation_core
from rtm.bnlib import build
from rtm.core import same
from rtm.gen import total_logp, rand_net, exo_values


class Group:
    def __init__(self, name, fixed, floating):
        self.name, self.fixed, self.floating, self.children, self.parent = name, fixed, floating, [], None

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    @property
    def above(self):
        g, out = self.parent, []
        while g:
            out.append(g)
            g = g.parent
        return out

    def node_set(self, r):
        ns = NodeSet(self.name, as_fixed=r.choice([list, set, tuple])(self.fixed),
                     as_floating=r.choice([list, set, tuple])(self.floating))
        for c in self.children:
            if r.random() < .3 and not c.children:
                ns.new_child(c.name, as_fixed=list(c.fixed), as_floating=list(c.floating))
            else:
                ns.add_child(c.node_set(r))
        return ns

    def text(self):
        return {'name': self.name, 'fixed': sorted(self.fixed), 'floating': sorted(self.floating),
                'children': [c.text() for c in self.children]}


def rand_groups(r, net, depth=2):
    """every variable is assigned at most once; nothing assigned to a group determines something assigned above it;
    nothing floating determines something fixed in the same group"""
    pool = sorted(net.nodes)
    p = r.choice([.1, .2, .35])

    def rec(name, d, path):
        fx = [x for x in pool if r.random() < p]
        fl = [x for x in pool if x not in fx and r.random() < p]
        for x in fx + fl:
            pool.remove(x)
        g = Group(name, set(fx), set(fl))
        if d < depth:
            for k in range(r.choice([0, 1, 1, 2, 1, 2, 3, 4])):
                c = rec('%s%s' % (name, 'abcd'[k]), d + 1, path)
                c.parent = g
                g.children.append(c)
        return g

    root = rec('g', 0, [])

    def bad(g, up):
        mine = g.fixed | g.floating
        if any(net.descendants(v) & up for v in mine):
            return True
        if any(net.descendants(v) & g.fixed for v in g.floating):
            return True
        return any(bad(c, up | mine) for c in g.children)
    return None if bad(root, set()) else root


def share_floating(r, net, root):
    """sibling groups without children may float the same variables"""
    for g in root.walk():
        leaves = [c for c in g.children if not c.children]
        for a in leaves:
            for b in leaves:
                if a is not b and r.random() < .5:
                    b.floating |= {v for v in a.floating if v not in b.fixed and not net.descendants(v) & b.fixed}
    return root


def layered_groups(r, net, depth=3):
    """groups by a topological cut: early variables above, late ones below (always in the domain)"""
    order = [k for k in net.order]
    n = r.randint(1, depth)
    cuts = sorted(r.sample(range(1, len(order) + 1), min(n, len(order))))
    g = None
    root = None
    lo = 0
    for i, c in enumerate(cuts):
        part = order[lo:c]
        lo = c
        fx, fl = set(), set()
        for k in part:
            x = r.random()
            if x < .5:
                fx.add(k)
            elif x < .75:
                fl.add(k)
        fl = {k for k in fl if not net.descendants(k) & fx}
        h = Group('g' + 'abcdef'[i] if i else 'g', fx, fl)
        if g is None:
            root = h
        else:
            h.parent = g
            g.children.append(h)
            if r.random() < .3:
                s = Group(h.name + 's', set(), set())
                s.parent = g
                g.children.append(s)
        g = h
    return root


def sibling_groups(r, net):
    """early variables fixed in the root, the same late ones floating in several groups of children"""
    order = list(net.order)
    c = r.randint(1, max(1, len(order) - 1))
    root = Group('g', set(order[:c]), set())
    late = [k for k in order[c:]]
    for k in range(r.randint(2, 4)):
        g = Group('g' + 'abcd'[k], set(), {v for v in late if r.random() < .7})
        g.parent = root
        root.children.append(g)
    return root


class World:
    """one network, one hierarchy, one tree of parameter cores"""
    def __init__(self, r, deterministic, n=None, width=2, siblings=False):
        self.r = r
        while True:
            net = rand_net(r, n or r.randint(2, 8), p_exo=.1, p_value=.35, deterministic=deterministic,
                           laws=['norm', 'norm', 'unif', 'gamma', 'exp', 'beta', 'pois', 'binom'], simple=r.random() < .6)
            g = sibling_groups(r, net) if siblings else rand_groups(r, net, r.choice([2, 2, 2, 3])) if r.random() < .5 else layered_groups(r, net, r.choice([3, 3, 5]))
            if g is not None:
                break
        if r.random() < .25:
            share_floating(r, net, g)
        self.net, self.groups = net, g
        self.group = {x.name: x for x in g.walk()}
        self.bn = build(r, net, r.choice(['script', 'json']))
        self.sc = as_simulation_core(self.bn, g.node_set(r))
        self.exo = exo_values(r, net)
        self.root = self.sc.generate('root', exo=self.exo)
        self.cores = [self.root]
        self.grow(self.root, width)

    def describe(self):
        return dict(script=self.net.script(), groups=self.groups.text(), exo=self.exo,
                    cores=[c.Nickname for c in self.cores])

    def grow(self, pc, width):
        for ch in self.group[pc.Group].children:
            for j in range(self.r.choice([1, 1, 2, 2, 2, 3]) if width > 1 else 1):
                c = pc.breed('%s_%d' % (ch.name, j), ch.name)
                self.cores.append(c)
                self.grow(c, width)


def lineage(pc):
    out = []
    while pc is not None:
        out.append(pc)
        pc = pc.Parent
    return out[::-1]


def visible(pc):
    """what is readable in a core"""
    vs = {}
    for p in lineage(pc):
        vs.update(p.Locus)
    return vs


def subtree(pc):
    out = [pc]
    for c in pc.Children.values():
        out += subtree(c)
    return out


def own_prior(net, pc):
    vs = visible(pc)
    return total_logp(net, vs, [k for k in pc.Locus if k in net.nodes])


def check_core(ctx, net, pc, what='a core'):
    """the values readable in a core agree with each other"""
    vs = visible(pc)
    ctx.expect(dict(iter(pc)) == vs, 'iterating over a core', got=dict(iter(pc)), expected=vs)
    for k, v in vs.items():
        ctx.expect(pc[k] == v or same(pc[k], v), 'reading a value in a core', variable=k)
        if k not in net.nodes:
            continue
        n = net[k]
        for p in n.parents:
            ctx.expect(p in vs, 'a value is readable in %s but its parent is not' % what, variable=k, parent=p,
                       group=pc.Group, values=vs)
        e = n.expected(vs)
        if e is not None:
            ctx.close(v, e, 'a value in %s disagrees with its definition' % what, variable=k, definition=n.src, values=vs,
                      group=pc.Group)
        elif n.kind == 'dist':
            lo, hi = n.support(vs)
            ctx.expect(lo <= v <= hi, 'a value in %s is outside its support' % what, variable=k, values=vs)
    for k in pc.Locus:
        for p in lineage(pc)[:-1]:
            # a declared non-random variable may be held again, with the same value
            ctx.expect(k not in p.Locus or same(p.Locus[k], pc.Locus[k]), 'a value of an ancestor is redrawn by its descendant',
                       variable=k, group=pc.Group, ancestor=p.Group)
            ctx.expect(k not in p.Locus or k not in net.nodes or not net.is_rv(k), 'a random value of an ancestor is drawn '
                       'again by its descendant', variable=k, group=pc.Group, ancestor=p.Group)


def implied(net, vs, k, memo=None):
    """value of variable k in a network without proper randomness, given readable values"""
    memo = {} if memo is None else memo
    if k in vs:
        return vs[k]
    if k not in memo:
        env = {p: implied(net, vs, p, memo) for p in net.par[k]}
        memo[k] = net[k].expected(env)
    return memo[k]


def floating_value(net, pc, k):
    """the only value that floating variable k can have at a core, in a network without proper randomness"""
    vs = visible(pc)
    memo = {}
    return net[k].expected({p: implied(net, vs, p, memo) for p in net.par[k]})
