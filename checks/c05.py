"""C05: definitions of single variables and their JSON form."""
import math
from rtm.bnlib import TYPE, through_text, draw_value
from rtm.gen import Node, Num, rand_expr, rand_names, param_exprs, call_src, LAWNAMES, num, Call, Var
from sims_pars.bayesnet import parse_loci, loci_from_json, BayesianNetwork
from sims_pars.util import ScriptException

ID = 'C05'
RULE = ('random definitions (values, exogenous, functions, distributions, pseudo) with random blanks and descriptions; '
        'distinct by source text; all are non-trivial but bare names')


def blanks(r, s):
    out = ''
    for c in s:
        if c in '()+-*/,=~<>' and r.random() < .3 and not (out and out[-1] in '*=<>!e' or c in '=-'):
            out += r.choice([' ', '  ', '\t']) + c
        else:
            out += c
    return out


def extreme(r):
    """constants of any size and precision"""
    return Num(r.choice([10.0 ** r.randint(-30, 30) * r.uniform(1, 10), r.uniform(-1, 1), 1e-13 * r.uniform(1, 9), 2 ** 53 + 1,
                         10 ** 18 + r.randint(0, 99), r.uniform(1e9, 1e10), 1e-300, 1.7e308, 123456789.123456789]))


def make(r):
    names = rand_names(r, r.choice([5, 5, 12]))
    k, pas = names[0], names[1:]
    t = r.choice(['value', 'func', 'dist', 'exo', 'pseudo', 'func', 'dist'])
    if t == 'value':
        e = num(r) if r.random() < .35 else rand_expr(r, [], 3) if r.random() < .6 else extreme(r)
        return Node(k, t, expr=e, src=e.src(r)), pas
    if t == 'func':
        e = rand_expr(r, pas, r.randint(0, 3), pas[:r.choice([1, 2, 3, len(pas)])])
        return Node(k, t, expr=e, src=e.src(r)), pas
    if t == 'dist':
        law = r.choice(LAWNAMES + ['k'])
        src, eff = call_src(r, law, param_exprs(r, law, pas, pas[:r.choice([0, 1, 2, len(pas)])]))
        return Node(k, t, law=law, params=eff, src=src), pas
    if t == 'pseudo':
        args = r.sample(pas, r.choice([1, 2, 3, len(pas)]))
        n = Node(k, t, src='f(%s)' % ', '.join(args))
        n.expr = Call('f', [Var(a) for a in args])
        return n, pas
    return Node(k, t), pas


def definitions(ctx):
    r = ctx.rng
    n, pas = make(r)
    pa = n.expr.vars() if n.kind == 'pseudo' else n.parents
    df = n.name if n.kind == 'exo' else '%s %s %s' % (n.name, '~' if n.kind == 'dist' else '=', n.src)
    df = blanks(r, df)
    des = r.choice(['', 'info', 'a=b', 'x~y', 'one#two', '(unit)'])
    text = r.choice(['', ' ', '\t', '    ']) + df + (r.choice([' # ', '#', '  #']) + des if des else r.choice(['', ' ']))
    ctx.describe(definition=text)
    if n.kind != 'exo':
        ctx.nontrivial(text)
    l, got = parse_loci(text)
    ctx.expect((got or '') == des, 'description', definition=text, got=got)
    env = {p: round(r.uniform(-1, 1), 3) for p in pas}
    js = l.to_json()
    again = loci_from_json(through_text(js))
    third, _ = parse_loci(str(l))
    bn = BayesianNetwork('B')
    bn.append_from_definition(text)
    for q, how in ((l, 'parsed'), (again, 'from json'), (third, 'from its own text'), (bn[n.name], 'in a network')):
        ctx.expect(q.Name == n.name, 'name of the variable ' + how, definition=text, got=q.Name)
        ctx.expect(q.to_json()['Type'] == TYPE[n.kind], 'kind of the variable ' + how, definition=text, got=q.to_json())
        ctx.expect(set(q.Parents) == pa, 'parents of the variable ' + how, definition=text, got=q.Parents, expected=pa)
        if n.kind == 'value' and isinstance(n.expr, Num):
            v = q.render(env)
            ctx.expect(abs(v - n.expr.ev({})) <= 1e-12 * abs(v), 'constant of the variable ' + how, definition=text, got=v)
        if n.kind in ('value', 'func'):
            ctx.close(q.render(env), n.expr.ev(env), 'value of the variable ' + how, definition=text, env=env)
            ctx.close(q(env), n.expr.ev(env), 'value of the variable ' + how, definition=text, env=env)
            gene = dict(env)
            q.fill(gene)
            ctx.close(gene[n.name], n.expr.ev(env), 'filled value ' + how, definition=text)
            ctx.expect(q.evaluate(env) == 0, 'log density of a deterministic variable', definition=text)
        elif n.kind == 'dist':
            pv = n.param_values(env)
            v = draw_value(r, n.law, pv)
            ctx.close(q.evaluate({n.name: v, **env}), n.logp(v, env), 'log density of the variable ' + how, tol=1e-6,
                      definition=text, env=env, value=v)
            gene = dict(env)
            q.fill(gene)
            lo, hi = n.support(env)
            ctx.expect(lo <= gene[n.name] <= hi, 'draw outside the support ' + how, definition=text, got=gene)
        elif n.kind == 'exo':
            v = r.uniform(-3, 3)
            ctx.expect(q.render({n.name: v, 'zz': 4}) == v, 'value of an exogenous variable ' + how, definition=text)
            ctx.raises(KeyError, lambda: q.render({'zz': 4}), 'exogenous variable without a value', definition=text)
            ctx.raises(KeyError, lambda: q.render(), 'exogenous variable without values', definition=text)
            ctx.expect(q.evaluate({n.name: v}) == 0, 'log density of an exogenous variable', definition=text)
        else:
            ctx.raises(AttributeError, lambda: q.render(env), 'pseudo variable was rendered', definition=text)
            ctx.raises(AttributeError, lambda: q.evaluate(env), 'pseudo variable was evaluated', definition=text)
    if n.kind == 'func':
        miss = r.choice(sorted(pa))
        ctx.raises(KeyError, lambda: l.render({k: v for k, v in env.items() if k != miss}),
                   'function without a parent', definition=text, missing=miss)


def rejected(ctx):
    r = ctx.rng
    a = r.choice(rand_names(r, 3))
    text = r.choice(['', '  ', '\t', '# only text', '%s +' % a, '%s:4' % a, '= 4', '~ norm(0, 1)', '{', '}', '%s =' % a,
                     '%s ~' % a, '%s ->b' % a, '-%s' % a, '(%s)' % a, '%s.b' % a])
    ctx.describe(definition=text)
    ctx.nontrivial(text)
    ctx.raises(ScriptException, lambda: parse_loci(text), 'an ill-formed definition was accepted', definition=text)
    bn = BayesianNetwork('B')
    ctx.raises(ScriptException, lambda: bn.append_from_definition(text), 'an ill-formed definition was accepted',
               definition=text)
    ctx.expect(list(bn.Order) == [], 'an ill-formed definition changed the network', definition=text, got=bn.Order)


WORKLOADS = [('definitions', definitions, 2000, 40000), ('rejected', rejected, 160, 1000)]
FLOOR = {'definitions': 500, 'rejected': 10}
