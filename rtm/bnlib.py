"""Helpers around the library's network objects."""
import json

from sims_pars.bayesnet import (BayesianNetwork, bayes_net_from_json, bayes_net_from_script, loci_from_json,
                                parse_loci)
from rtm.core import same

KIND = {'ValueLoci': 'value', 'FunctionLoci': 'func', 'DistributionLoci': 'dist', 'ExoValueLoci': 'exo',
        'PseudoLoci': 'pseudo'}


def item(o):
    try:
        return o.item()
    except AttributeError:
        return list(o)


def through_text(js):
    return json.loads(json.dumps(js, default=item))


def build(r, net, how=None, complete=None):
    """one of the documented ways to build a network"""
    how = how or r.choice(['script', 'defs', 'json', 'loci'])
    if how == 'script':
        return bayes_net_from_script(net.script(r))
    bn = BayesianNetwork(net.name)
    ns = [n for n in net.nodes.values() if n.kind != 'exo' or not net.chd[n.name] or r.random() < .5]
    r.shuffle(ns)
    for n in ns:
        df = n.definition(r) + ('  # %s' % n.des if n.des else '')
        if how == 'loci':
            l, des = parse_loci(df)
            bn.append_loci(loci_from_json(l.to_json()), **({'Des': des} if des else {}))
        else:
            bn.append_from_definition(df)
    if how == 'json':
        return bayes_net_from_json(through_text(bn.to_json()) if r.random() < .5 else bn.to_json())
    if complete or (complete is None and r.random() < .7):
        bn.complete()
    return bn


def kind(bn, k):
    return KIND[type(bn[k]).__name__] if type(bn[k]).__name__ in KIND else type(bn[k]).__name__


def loci_kind(l):
    return l.to_json()['Type']


TYPE = {'value': 'Value', 'func': 'Function', 'dist': 'Distribution', 'exo': 'ExoValue', 'pseudo': 'Pseudo'}


def edges(bn):
    return {(a, b) for a, b in bn.DAG.edges()}


def net_edges(net):
    return {(p, k) for k in net.nodes for p in net.par[k]}


def snapshot(bn):
    """observable state of a network"""
    return dict(name=bn.Name, edges=sorted(edges(bn)), frozen=bn.is_frozen(), exo=sorted(bn.Exo),
                nodes={k: (bn[k].to_json()['Type'], str(bn[k]), tuple(sorted(bn[k].Parents)),
                           bn.DAG.nodes[k].get('Des')) for k in bn.DAG.nodes()})


def check_order(ctx, order, net, what='Order'):
    ctx.expect(sorted(order) == sorted(net.nodes), what + ' is not a permutation of the variables',
               order=order, nodes=sorted(net.nodes))
    pos = {k: i for i, k in enumerate(order)}
    for k in net.nodes:
        for p in net.par[k]:
            ctx.expect(pos[p] < pos[k], what + ' places a variable before its parent', order=order, child=k, parent=p)


def check_meaning(ctx, bn, net, env, draws=True):
    """each variable of bn means what the user wrote"""
    for k in net.nodes:
        n = net[k]
        ctx.expect(k in bn, 'variable lost', variable=k)
        js = bn[k].to_json()
        ctx.expect(js['Type'] == TYPE[n.kind], 'kind of variable changed', variable=k, got=js['Type'], expected=n.kind)
        ctx.expect(set(bn[k].Parents) == set(net.par[k]), 'parents changed', variable=k, got=bn[k].Parents,
                   expected=net.par[k])
        if n.des is not None:
            ctx.expect(bn.DAG.nodes[k].get('Des') == n.des.split('\n')[0], 'description changed', variable=k,
                       got=bn.DAG.nodes[k].get('Des'), expected=n.des)
        if n.kind == 'pseudo':
            ctx.raises(AttributeError, lambda: bn[k].render(env), 'a variable without a definition was computed', variable=k)
            ctx.raises(AttributeError, lambda: bn[k].evaluate(env), 'a variable without a definition was scored', variable=k)
            ctx.raises(AttributeError, lambda: bn[k].fill(dict(env)), 'a variable without a definition was filled', variable=k)
            ctx.count('pseudo variables')
            continue
        e = n.expected(env)
        if e is not None:
            ctx.close(bn[k].render(env), e, 'value of a variable given its parents', variable=k, definition=n.src, env=env)
        if n.kind == 'dist':
            v = env[k]
            ctx.close(bn[k].evaluate(env), n.logp(v, env), 'log density of a variable given its parents', tol=1e-6,
                      variable=k, definition=n.src, env=env)
        else:
            ctx.expect(bn[k].evaluate(env) == 0, 'log density of a non-random variable is not 0', variable=k)
    ctx.expect(edges(bn) == net_edges(net), 'edges changed', got=edges(bn) - net_edges(net), missing=net_edges(net) - edges(bn))


def draw_value(r, law, pv):
    """a value strictly inside the support of a law"""
    a = dict(pv)
    if law == 'k':
        return float(a['k'])
    if law in ('gamma', 'exp', 'lnorm', 'chisq', 'invgamma'):
        return round(r.uniform(0.05, 5), 4)
    if law == 'beta':
        return round(r.uniform(0.02, 0.98), 4)
    if law == 'unif':
        return a['min'] + (a['max'] - a['min']) * r.uniform(.01, .99)
    if law == 'norm':
        return a['mean'] + a['sd'] * r.uniform(-3, 3)
    if law == 'triangle':
        x = sorted([a['a'], a['m'], a['b']])
        return x[0] + (x[2] - x[0]) * r.uniform(.02, .98)
    if law == 'binom':
        return r.randint(0, int(a['size']))
    if law == 'pois':
        return r.randint(0, 12)


def full_env(r, net):
    """a value for every variable, consistent with functions, inside the supports"""
    from rtm.gen import exo_values
    env = exo_values(r, net)
    for k in net.order:
        n = net[k]
        if n.kind == 'exo':
            continue
        if n.kind == 'pseudo':
            env[k] = round(r.uniform(-2, 2), 3)
            continue
        e = n.expected(env)
        env[k] = e if e is not None else draw_value(r, n.law, n.param_values(env))
    return env


def eq(a, b, tol=1e-9):
    return same(a, b, tol)
