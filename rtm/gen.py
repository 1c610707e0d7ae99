"""Workload generator: expressions, definitions and networks with their own reference semantics.

Everything generated carries an independent evaluator, so that oracles never ask the
library what the right answer is.
"""
import math
import re

import numpy as np

from rtm.dists import LAWS

# ------------------------------------------------------------------ expressions


class E:
    pass


class Num(E):
    def __init__(self, v):
        self.v = v

    def src(self, r=None):
        return repr(self.v) if self.v >= 0 else '(%r)' % self.v

    def ev(self, env):
        return self.v

    def vars(self):
        return set()


class Var(E):
    def __init__(self, n):
        self.n = n

    def src(self, r=None):
        return self.n

    def ev(self, env):
        return env[self.n]

    def vars(self):
        return {self.n}


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '**': lambda a, b: a ** b, '%': lambda a, b: a % b, '//': lambda a, b: a // b}


class Neg(E):
    def __init__(self, a):
        self.a = a

    def src(self, r=None):
        return '(-%s)' % self.a.src(r)

    def ev(self, env):
        return -self.a.ev(env)

    def vars(self):
        return self.a.vars()


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def src(self, r=None):
        s = ' ' * r.choice([0, 0, 1, 2]) if r else ''
        return '(%s%s%s%s%s)' % (self.a.src(r), s, self.op, s, self.b.src(r))

    def ev(self, env):
        return OPS[self.op](self.a.ev(env), self.b.ev(env))

    def vars(self):
        return self.a.vars() | self.b.vars()


FNS = {
    'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'abs': abs,
    'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'erf': math.erf, 'pow': math.pow,
    'hypot': math.hypot, 'expit': lambda x: 1 / (1 + math.exp(-x)) if x > -700 else math.exp(x), 'logit': lambda p: math.log(p / (1 - p)),
    'step': lambda k, c, a, b: a if k < c else b, 'max': max, 'min': min,
}


class Call(E):
    def __init__(self, fn, args):
        self.fn, self.args = fn, args

    def src(self, r=None):
        sep = ',' + (' ' * r.choice([0, 1]) if r else '')
        return '%s(%s)' % (self.fn, sep.join(a.src(r) for a in self.args))

    def ev(self, env):
        return FNS[self.fn](*[a.ev(env) for a in self.args])

    def vars(self):
        return set().union(*[a.vars() for a in self.args])


class Cond(E):
    """ifelse on the truth of a number"""
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def src(self, r=None):
        return 'ifelse(%s, %s, %s)' % (self.c.src(r), self.a.src(r), self.b.src(r))

    def ev(self, env):
        return (self.a if self.c.ev(env) else self.b).ev(env)

    def vars(self):
        return self.c.vars() | self.a.vars() | self.b.vars()


class IfElse(E):
    CMP = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b,
           '==': lambda a, b: a == b, '!=': lambda a, b: a != b}

    def __init__(self, cmp, l, rr, a, b):
        self.cmp, self.l, self.rr, self.a, self.b = cmp, l, rr, a, b

    def src(self, r=None):
        return 'ifelse(%s %s %s,%s,%s)' % tuple([self.l.src(r), self.cmp] + [x.src(r) for x in (self.rr, self.a, self.b)])

    def ev(self, env):
        return (self.a if self.CMP[self.cmp](self.l.ev(env), self.rr.ev(env)) else self.b).ev(env)

    def vars(self):
        return self.l.vars() | self.rr.vars() | self.a.vars() | self.b.vars()


def num(r):
    x = r.random()
    if x < .5:
        return Num(r.randint(0, 9))
    if x < .8:
        return Num(round(r.uniform(-5, 5), 3))
    if x < .84:
        return Num(r.choice([137.0, 1234.5, 20000, 1e-7, 0.0001234567891]))
    return Num(r.choice([0.5, 1e-3, 2.5, 10.0, 0.125, 1e-5]))


def bounded(e):
    """squash an expression into [-1, 1]"""
    return Call('sin', [e])


def rand_expr(r, names, depth=3, need=()):
    """random expression over names; every name in `need` appears in it"""
    need = list(need)
    e = _expr(r, names, depth)
    for n in need:
        if n not in e.vars():
            c = Num(r.randint(1, 4))
            t = Bin('*', c, Var(n)) if r.random() < .5 else Bin('-', Var(n), c)
            e = Bin(r.choice('+-'), e, t) if r.random() < .7 else Bin('+', t, e)
    return e


def _expr(r, names, depth):
    if depth <= 0 or r.random() < .15:
        return Var(r.choice(names)) if names and r.random() < .75 else num(r)
    x = r.random()
    sub = lambda: _expr(r, names, depth - 1)
    if x < .35:
        return Bin(r.choice('+-'), sub(), sub())
    if x < .5:
        return Bin('*', num(r), sub())
    if x < .58:
        return Bin('*', bounded(sub()), bounded(sub()))
    if x < .64:
        return Bin('/', sub(), Bin('+', Num(1), Call('abs', [sub()])))
    if x < .66:
        return Bin('**', bounded(sub()), Num(2))
    if x < .68:
        return Neg(sub())
    if x < .7 and names:
        # (exact remainders: a number of the user, not the outcome of a function)
        return Bin(r.choice(['%', '//']), Var(r.choice(names)), Num(r.choice([2, 3, 7])))
    f = r.choice(['exp', 'log', 'sin', 'cos', 'abs', 'sqrt', 'floor', 'ceil', 'erf', 'pow', 'hypot', 'expit',
                  'logit', 'step', 'ifelse', 'max', 'min', 'tan'])
    if f == 'exp':
        return Call('exp', [bounded(sub())])
    if f == 'log':
        return Call('log', [Bin('+', Num(1), Call('abs', [sub()]))])
    if f == 'sqrt':
        return Call('sqrt', [Call('abs', [sub()])])
    if f == 'tan':
        return Call('tan', [bounded(sub())])
    if f == 'pow':
        return Call('pow', [bounded(sub()), Num(r.choice([2, 3]))])
    if f in ('hypot', 'max', 'min'):
        return Call(f, [sub(), sub()])
    if f == 'expit':
        return Call('expit', [bounded(sub())])
    if f == 'erf':
        return Call('erf', [bounded(sub())])
    if f == 'logit':
        return Call('logit', [Call('expit', [bounded(sub())])])
    if f == 'step':
        return Call('step', [sub(), num(r), sub(), sub()])
    if f == 'ifelse':
        if r.random() < .3 and names:
            return Cond(r.choice([Var(r.choice(names)), Bin('-', Var(r.choice(names)), num(r))]), sub(), sub())
        return IfElse(r.choice(['<', '>', '<=', '>=']), sub(), num(r), sub(), sub())
    return Call(f, [sub()])


def sensitive(r, names):
    """an expression whose value reveals the value of each of its variables"""
    e = num(r)
    for n in names:
        c = round(r.uniform(0.1, 0.9), 3)
        e = Bin(r.choice('+-'), e, Bin('*', Num(c), Var(n)))
    return e


# ------------------------------------------------------------------ distributions


def _pos(e, r):
    return r.choice([lambda: Call('exp', [bounded(e)]), lambda: Bin('+', Num(0.5), Call('abs', [bounded(e)])),
                     lambda: Bin('+', Num(1.5), bounded(e))])()


def param_exprs(r, law, names, need=()):
    """valid parameter expressions of a law, over names"""
    need = list(need)
    ps = [p for p, _ in LAWS[law].params]
    share = {p: [] for p in ps}
    if law == 'binom':
        for n in need:
            share['prob'].append(n)
    else:
        for n in need:
            share[r.choice(ps)].append(n)

    def base(p):
        if share[p]:
            return rand_expr(r, names, r.choice([0, 1]), share[p])
        return num(r)

    out = {}
    if law == 'k':
        out['k'] = base('k')
    elif law in ('gamma', 'exp', 'chisq', 'beta'):
        for p in ps:
            out[p] = _pos(base(p), r)
    elif law == 'lnorm':
        out['meanlog'] = Bin('*', Num(0.5), Call('expit', [bounded(base('meanlog'))]))
        out['sdlog'] = Bin('+', Num(0.1), Bin('*', Num(0.3), Call('expit', [bounded(base('sdlog'))])))
    elif law == 'unif':
        out['min'] = bounded(base('min'))
        out['max'] = Bin('+', Num(1.5), _pos(base('max'), r))
    elif law == 'invgamma':
        out['a'] = Bin('+', Num(2.1), _pos(base('a'), r))
        out['rate'] = _pos(base('rate'), r)
    elif law == 'norm':
        out['mean'] = base('mean')
        out['sd'] = _pos(base('sd'), r)
    elif law == 'triangle':
        out['a'] = bounded(base('a'))
        out['m'] = Bin('+', Num(2), bounded(base('m')))
        out['b'] = Bin('+', Num(4), bounded(base('b')))
    elif law == 'binom':
        out['size'] = Num(r.randint(1, 12))
        out['prob'] = Call('expit', [bounded(base('prob'))])
    elif law == 'pois':
        out['lam'] = _pos(base('lam'), r)
    return out


def plain_params(r, law):
    """valid numeric parameters"""
    return {k: Num(e.ev({})) for k, e in param_exprs(r, law, []).items()}


def call_src(r, law, exprs, may_default=True):
    """Write a call with some arguments positional, some named and (if allowed) some left out.
    Positional arguments fill the parameters which are not named, in the declared order.
    -> source, exprs actually in force"""
    order = [p for p, _ in LAWS[law].params]
    default = dict(LAWS[law].params)
    named = [p for p in order if r.random() < .4]
    rest = [p for p in order if p not in named]
    eff = dict(exprs)
    n_pos = len(rest)
    if may_default and law not in ('invgamma', 'unif', 'triangle') and r.random() < .3:
        while n_pos > 0 and not exprs[rest[n_pos - 1]].vars() and r.random() < .6:
            n_pos -= 1
            eff[rest[n_pos]] = Num(default[rest[n_pos]])
    if may_default and law in ('unif', 'triangle') and not any(e.vars() for e in exprs.values()) and r.random() < .3:
        # what is left must still be a law
        n = r.randint(0, len(rest))
        e2 = dict(exprs, **{p: Num(default[p]) for p in rest[n:]})
        vs = [e2[p].ev({}) for p in order]
        if all(a + 1e-6 < b for a, b in zip(vs, vs[1:])):
            n_pos, eff = n, e2
    r.shuffle(named)
    args = [exprs[p].src(r) for p in rest[:n_pos]] + ['%s=%s' % (p, exprs[p].src(r)) for p in named]
    sep = ',' + ' ' * r.choice([0, 1])
    return '%s(%s)' % (law, sep.join(args)), eff


# ------------------------------------------------------------------ networks


class Node:
    def __init__(self, name, kind, expr=None, law=None, params=None, src=None, des=None):
        self.name, self.kind, self.expr, self.law, self.params, self.src, self.des = name, kind, expr, law, params, src, des

    @property
    def parents(self):
        if self.kind in ('func', 'pseudo'):
            return self.expr.vars()
        if self.kind == 'dist':
            return set().union(*[e.vars() for e in self.params.values()])
        return set()

    def definition(self, r=None):
        s = (' ' * r.choice([0, 1, 2])) if r else ' '
        if self.kind == 'exo':
            return self.name
        if self.kind == 'value':
            return '%s%s=%s%s' % (self.name, s, s, self.src)
        if self.kind in ('func', 'pseudo'):
            return '%s%s=%s%s' % (self.name, s, s, self.src)
        return '%s%s~%s%s' % (self.name, s, s, self.src)

    def param_values(self, env):
        return {k: e.ev(env) for k, e in self.params.items()}

    def expected(self, env):
        """deterministic value given the parents; None if it is a proper random variable"""
        if self.kind in ('value', 'func'):
            return self.expr.ev(env)
        if self.kind == 'dist' and self.law == 'k':
            return float(self.params['k'].ev(env))
        return None

    def logp(self, v, env):
        if self.kind != 'dist':
            return 0.0
        pv = self.param_values(env)
        return LAWS[self.law].logp(v, *[pv[p] for p, _ in LAWS[self.law].params])

    def support(self, env):
        pv = self.param_values(env)
        return LAWS[self.law].support(*[pv[p] for p, _ in LAWS[self.law].params])


class Net:
    """a network as the user wrote it"""
    def __init__(self, name, nodes):
        self.name = name
        self.nodes = {n.name: n for n in nodes}
        for n in list(nodes):
            for p in sorted(n.parents):
                if p not in self.nodes:
                    self.nodes[p] = Node(p, 'exo')
        self.par = {k: set(n.parents) for k, n in self.nodes.items()}
        self.chd = {k: set() for k in self.nodes}
        for k, ps in self.par.items():
            for p in ps:
                self.chd[p].add(k)

    def __getitem__(self, k):
        return self.nodes[k]

    @property
    def names(self):
        return list(self.nodes)

    def ancestors(self, k):
        return self._reach(k, self.par)

    def descendants(self, k):
        return self._reach(k, self.chd)

    @staticmethod
    def _reach(k, rel):
        seen, todo = set(), list(rel[k])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(rel[x])
        return seen

    @property
    def order(self):
        out, seen = [], set()

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            for p in sorted(self.par[k]):
                visit(p)
            out.append(k)
        for k in self.nodes:
            visit(k)
        return out

    @property
    def exo(self):
        return {k for k, n in self.nodes.items() if n.kind == 'exo'}

    def roots(self):
        return {k for k in self.nodes if not self.par[k]}

    def leaves(self):
        return {k for k in self.nodes if not self.chd[k]}

    def is_rv(self, k):
        return self.nodes[k].kind == 'dist'

    def rv_roots(self):
        return {k for k in self.nodes if self.is_rv(k) and not any(self.is_rv(a) for a in self.ancestors(k))}

    def script(self, r=None, shuffle=True):
        ns = [n for n in self.nodes.values() if n.kind != 'exo' or not self.chd[n.name] or (r and r.random() < .5)]
        if r and shuffle:
            r.shuffle(ns)
        lines = []
        for n in ns:
            ln = n.definition(r)
            if n.des:
                ln += ' # ' + n.des
            ind = ' ' * r.choice([0, 2, 4]) if r else '    '
            lines.append(ind + ln)
        head = 'PCore %s {' % self.name
        return '\n'.join([head] + lines + ['}'])


POOL = ['a', 'b', 'c', 'd', 'x', 'y', 'z', 'u', 'v', 'w', 'p1', 'p2', 'r0', 'mu', 'sigma', 'beta', 'gamma', 'rate_x',
        'N', 'n_pop', 'X1', 'Y_2', 'tau', 'alpha', 'lam', 'theta', 'phi', 'k1', 'al', 'be', 'foo', 'Bar']
# names that look like something else
ODD = ['pcore1', 'PCore_x', 'f', 'f1', 'k', 'E1', 'e', 'I', 'BETA', 'RR', 'normal', 'unif', 'pois', 'expo', 'log10', 'sum', 'size',
       'mean', 'prob', 'name', 'Order', 'self', '_x', 'x_', '_', 'a_very_long_name_of_a_variable_with_many_parts_1', '\u03b2', 'r\u00e9',
       '\u03bc1', 'x1', 'x10', 'x2', 'Value', 'exo', 'Trues', 'not_used', 'GDP', 'N0', 'TT', 'SEX', 'l', 'O0', 'sd', 'rate', 'scale', 'n', 'id', 'pi', 'chisq', 'len', 'range', 'round', 'type',
       'input', 'set', 'hash', 'iter', 'vars', 'inf', 'nan', 'E', 'infinity', 'true', 'none', 'null', 'j', 'np', 'math']
LAWNAMES = [n for n in LAWS if n != 'k']


def rand_names(r, n):
    names = list(POOL)
    x = r.random()
    if x < .3:
        names = names[:12] + ODD
    elif x < .34:
        names = ['v%d' % i for i in range(max(n, 5))]
    elif x < .38:
        # alike but for their case, a sign or a number at the end
        names = ['x', 'X', 'xx', 'x_', '_x', 'x1', 'x11', 'X1', 'xX', 'Xx', 'x_1', 'x__1', 'X_', 'x01', 'x2', 'x12', 'x21', 'XX', '_X']
    r.shuffle(names)
    return names[:n] if len(names) >= n else names + ['w%d' % i for i in range(n - len(names))]


def rand_net(r, n, p_exo=.12, p_value=.3, p_rv=.45, laws=None, deterministic=False, simple=False, des=False,
             max_pa=3, name=None, p_pseudo=0, names=None, wide=False):
    """random network of n nodes; deterministic=True draws every random variable from k(.)"""
    names = names or rand_names(r, n)
    nodes, prev = [], []
    deep = r.random() < .15          # long chains of dependence
    for nm in names:
        pas = r.sample(prev, min(len(prev), r.choice([0, 1, 1, 2, 2, 1, 2, 2, max_pa, max_pa, r.randint(3, 9)])))
        if deep and prev and r.random() < .95:
            pas = r.sample(prev[-3:], min(len(prev), r.choice([1, 1, 1, 2])))
        if wide and r.random() < .85:
            pas = []
        x = r.random()
        d = r.choice([None, None, 'info', 'Some_text', 'a=b~c#d']) if des else None
        if not pas:
            if x < p_exo:
                nodes.append(Node(nm, 'exo'))
            elif x < p_exo + p_value:
                e = num(r) if r.random() < .7 else rand_expr(r, [], 2)
                nodes.append(Node(nm, 'value', expr=e, src=e.src(r), des=d))
            else:
                nodes.append(_rv(r, nm, [], [], laws, deterministic, simple, d))
        elif p_pseudo and r.random() < p_pseudo:
            nodes.append(pseudo(nm, pas, d))
        elif x < p_rv:
            nodes.append(_rv(r, nm, pas, pas, laws, deterministic, simple, d))
        else:
            e = sensitive(r, pas) if simple else rand_expr(r, pas, r.choice([1, 2, 3]), pas)
            nodes.append(Node(nm, 'func', expr=e, src=e.src(r), des=d))
        prev.append(nm)
    return Net(name or r.choice(['Net', 'ABC', 'm1', 'Test_2']), nodes)


def pseudo(nm, pas, des=None):
    """a variable of which only the dependence is known"""
    return Node(nm, 'pseudo', expr=Call('f', [Var(a) for a in pas]), src='f(%s)' % ', '.join(pas), des=des)


def _rv(r, nm, pas, need, laws, deterministic, simple, des):
    if deterministic:
        e = sensitive(r, need) if (simple or need) else num(r)
        return Node(nm, 'dist', law='k', params={'k': e}, src='k(%s)' % e.src(r), des=des)
    law = r.choice(laws or LAWNAMES)
    if simple and law == 'norm':
        ps = {'mean': sensitive(r, need), 'sd': Num(r.choice([0.5, 1.0, 2.0]))}
    else:
        ps = param_exprs(r, law, pas, need)
    src, eff = call_src(r, law, ps)
    return Node(nm, 'dist', law=law, params=eff, src=src, des=des)


def total_logp(net, vs, keys=None):
    """joint log density of some variables; an undefined total is impossible"""
    t = sum(net[k].logp(vs[k], vs) for k in (net.nodes if keys is None else keys))
    return -math.inf if t != t else t


def any_value(r):
    """what a user may give to a variable"""
    x = r.random()
    if x < .5:
        return round(r.uniform(-4, 4), 3)
    if x < .65:
        return r.choice([0, 0.0, 0, 1, -1])
    if x < .8:
        return r.choice([2, 3, 0.5, -1.5, 7])
    if x < .9:
        return np.float64(round(r.uniform(-2, 2), 4))
    return r.choice([1e-6, 150, -40.25, 1000.0, 0.1 + 0.2])


def exo_values(r, net):
    return {k: any_value(r) for k in sorted(net.exo)}


def wide_params(r, law):
    """valid numeric parameters over several orders of magnitude"""
    def pos(lo=-3, hi=3):
        return float('%.4g' % 10 ** r.uniform(lo, hi))
    if law == 'gamma':
        ps = dict(shape=pos(-2, 3), rate=pos())
    elif law == 'exp':
        ps = dict(rate=pos())
    elif law == 'chisq':
        ps = dict(df=r.choice([pos(-1, 2.5), r.randint(1, 60)]))
    elif law == 'beta':
        ps = dict(shape1=pos(-1, 2.5), shape2=pos(-1, 2.5))
    elif law == 'lnorm':
        ps = dict(meanlog=r.choice([0, round(r.uniform(0, 1.2), 3)]), sdlog=pos(-2, -.3))
    elif law == 'unif':
        a = r.choice([0, -1, round(r.uniform(-50, 50), 2), pos(), -pos()])
        ps = dict(min=a, max=a + pos(-2, 3))
    elif law == 'invgamma':
        ps = dict(a=2 + pos(-1, 1.5), rate=pos(-2, 2))
    elif law == 'norm':
        ps = dict(mean=r.choice([0, pos(), -pos()]), sd=pos())
    elif law == 'triangle':
        a = r.choice([0, -1, round(r.uniform(-50, 50), 2)])
        w = pos(-2, 2)
        x = [a, a + w * r.uniform(.05, .95), a + w]
        if r.random() < .3:
            r.shuffle(x)
        ps = dict(zip('amb', x))
    elif law == 'binom':
        ps = dict(size=r.choice([1, 2, r.randint(3, 40), 150]), prob=r.choice([0, 1, .5, round(r.uniform(0, 1), 4), .001]))
    else:
        ps = dict(lam=pos(-2, 2))
    return {k: Num(v) for k, v in ps.items()}


def settle(r, net, exo=None, fixed=None):
    """reference forward pass for networks without proper randomness"""
    env = dict(exo or {})
    for k in net.order:
        if fixed and k in fixed:
            env[k] = fixed[k]
        elif k not in env:
            env[k] = net[k].expected(env)
    return env


def strip(s):
    return re.sub(r'\s+', '', s)
