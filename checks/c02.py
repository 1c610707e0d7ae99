"""C02: completing and building calls (distributions and other products)."""
import builtins
import json
import typing

import pydantic.types as ptp
from pydantic import ValidationError
from rtm.dists import LAWS
from rtm.gen import LAWNAMES, param_exprs, plain_params, call_src, rand_names, Num, Var, Bin
from sims_pars import parse_distribution
from sims_pars.prob import complete_function
from sims_pars.factory import get_atelier, AbsCreator
from sims_pars.bayesnet import parse_loci, loci_from_json

ID = 'C02'
RULE = ('random calls with every mixture of positional, named and omitted arguments, constant and variable; a case is '
        'non-trivial if an argument is omitted, or positional and named ones are mixed; distinct by source text')


def check_args(ctx, got, exprs, env, src):
    ctx.expect(set(got) == set(exprs), 'parameters of the built object', source=src, got=got)
    for k, e in exprs.items():
        ctx.close(got[k], e.ev(env), 'value of a parameter', source=src, parameter=k, all=got)


def distributions(ctx):
    r = ctx.rng
    law = r.choice(LAWNAMES + ['k'])
    names = rand_names(r, 3)
    ps = param_exprs(r, law, names, r.sample(names, r.randint(0, 2))) if r.random() < .6 else plain_params(r, law)
    src, eff = call_src(r, law, ps)
    env = {n: round(r.uniform(-1, 1), 3) for n in names}
    ctx.describe(source=src)
    d = parse_distribution(src, loc=env)
    check_args(ctx, d.to_json()['Args'], eff, env, src)
    full = complete_function(src)
    d2 = parse_distribution(full, loc=env)
    check_args(ctx, d2.to_json()['Args'], eff, env, full)
    ctx.expect(complete_function(full) == full or
               parse_distribution(complete_function(full), loc=env).to_json() == d2.to_json(),
               'completing twice changes the call', source=src, once=full)
    d3 = parse_distribution(full, loc=env, to_complete=False)
    check_args(ctx, d3.to_json()['Args'], eff, env, full)
    ctx.expect(src in repr(d), 'the source of the distribution is lost', got=repr(d))
    ref = [eff[p].ev(env) for p, _ in LAWS[law].params]
    ctx.close(d.mean(), LAWS[law].mean(*ref), 'mean of the built distribution', tol=1e-6, source=src)
    for near in (law.upper(), law.capitalize(), law + 's', law[:-1]):
        if near not in LAWS and near:
            ctx.raises(KeyError, lambda: parse_distribution(near + src[len(law):], loc=env), 'built an unknown law', name=near)
    l, _ = parse_loci('out ~ ' + src)
    vs = set().union(*[e.vars() for e in eff.values()])
    ctx.expect(set(l.Parents) == vs, 'parents of a random variable', source=src, got=l.Parents, expected=vs)
    for q in (l, loci_from_json(l.to_json())):
        check_args(ctx, q.get_distribution(env).to_json()['Args'], eff, env, str(q))
    written = src.count('=')
    if 0 < written < len(eff) or len([e for e in ps if eff[e] is not ps[e]]):
        ctx.nontrivial(src)
    lack = sorted(v for v in vs - set(LAWS) if not hasattr(builtins, v))
    if lack:
        miss = r.choice(lack)
        ctx.raises((NameError, TypeError, ValueError), lambda: parse_distribution(src, loc={k: v for k, v in env.items() if k != miss}),
                   'built without a variable', source=src, missing=miss)


RATE = ptp.confloat(ge=0, le=10)
COUNT = ptp.conint(ge=0)


def products(ctx):
    """user-registered products, with numbers, strings, dictionaries and flags"""
    r = ctx.rng
    ws = get_atelier('ws%d' % r.randint(0, 5))
    ctx.expect(get_atelier('ws0') is get_atelier('ws0'), 'a workshop is not kept under its name')
    fields = r.sample(['aa', 'bb', 'cc', 'dd', 'ee'], r.randint(1, 5))
    types = {f: r.choice([float, int, str, typing.Dict[str, float], RATE, COUNT, bool]) for f in fields}
    rnd = {float: lambda: r.choice([round(r.uniform(-5, 5), 3), 0.0]), int: lambda: r.randint(-9, 9),
           RATE: lambda: r.choice([0.0, 10.0, round(r.uniform(0, 10), 3)]), COUNT: lambda: r.choice([0, 0, r.randint(0, 20)]),
           bool: lambda: r.random() < .5,
           str: lambda: r.choice(['x y', 'txt', "it's", 'a(b', '', 'p,q=1', 'None', '0']),
           typing.Dict[str, float]: lambda: {k: round(r.uniform(0, 3), 2) for k in r.sample(['M', 'O', 'K'], 2)}}
    required = [f for f in fields if r.random() < .2]
    default = {f: rnd[types[f]]() for f in fields if f not in required}

    class Made:
        def __init__(self, args):
            self.args = args
            self.source = self.json = None

    def create(self):
        return Made({f: getattr(self, f) for f in fields})

    ns = {'__annotations__': {f: types[f] for f in fields}, 'create': create, '__module__': __name__}
    ns.update(default)
    ns = {k: v for k, v in ns.items()}
    tp = r.choice(['Prod', 'x1', 'Foo_bar'])
    ws.register(tp, type(tp, (AbsCreator,), ns))
    ctx.expect(tp in ws and tp in ws.list(), 'a registered product is not listed')
    env = {'k0': r.randint(1, 9)}
    given = {f: rnd[types[f]]() for f in fields}
    named = [f for f in fields if r.random() < .4]
    rest = [f for f in fields if f not in named]
    n = len(rest)
    while n and rest[n - 1] in default and r.random() < .5:
        n -= 1
    eff = {f: given[f] if f in named or f in rest[:n] else default[f] for f in fields}

    def text(f):
        if types[f] in (float, int) and r.random() < .4:
            given[f] = eff[f] = given[f] + env['k0'] if types[f] is int else given[f]
            if types[f] is int:
                return '%r + k0' % (given[f] - env['k0'])
        return repr(given[f])
    order = list(named)
    r.shuffle(order)
    src = '%s(%s)' % (tp, ', '.join([text(f) for f in rest[:n]] + ['%s=%s' % (f, text(f)) for f in order]))
    ctx.describe(source=src)
    o = ws.create(src, loc=env, append_src=True)
    ctx.expect(o.args == eff, 'arguments of the built product', source=src, got=o.args, expected=eff)
    ctx.expect(o.source == src and o.json == {'Args': eff}, 'source or json of the built product', source=src,
               got=(o.source, o.json))
    full = ws.complete_def(src)
    ctx.expect(ws.create(full, loc=env, to_complete=False).args == eff, 'arguments after completion', source=src, full=full)
    ctx.nontrivial(src)
    if [f for f in required if f in rest[:n] or f in named]:
        gone = [f for f in required if f in rest[:n] or f in named]
        gone = r.sample(gone, r.randint(1, len(gone)))
        only = {f: v for f, v in eff.items() if f not in gone}
        ctx.raises((KeyError, ValidationError),
                   lambda: ws.create('%s(%s)' % (tp, ', '.join('%s=%r' % kv for kv in only.items()))),
                   'built without a required argument', source=src)
    ctx.raises(KeyError, lambda: ws.create('Unknown_%d(1)' % ctx.index), 'built an unknown product')
    for near in (tp.swapcase(), tp.upper(), tp.lower(), tp + '_', tp[:-1], '_' + tp):
        if near not in ws:
            ctx.raises(KeyError, lambda: ws.create(src.replace(tp, near, 1), loc=env), 'built a product whose name is nearly right', name=near)
            ctx.raises(KeyError, lambda: ws.complete_def(src.replace(tp, near, 1)), 'completed a product whose name is nearly right', name=near)


WORKLOADS = [('distributions', distributions, 2000, 40000), ('products', products, 400, 6000)]
FLOOR = {'distributions': 300, 'products': 100}
