"""C01: expressions mean what they say."""
import builtins
import re
import numpy as np
from rtm.core import plain
from rtm.gen import rand_expr, rand_names, num, sensitive, Call, Var, Num, Bin, IfElse, Cond, OPS, FNS
from rtm.gen import any_value
from sims_pars import add_math_func, parse_distribution
from sims_pars.util import MATH_FUNC
from sims_pars.util import parse_math_expression, parse_function, evaluate_function, parse_parents
from sims_pars.bayesnet import parse_loci

ID = 'C01'
RULE = ('random expressions over arithmetic, the library functions, builtins and user-added functions; a case is '
        'non-trivial if it reads at least one variable; distinct by source text')


def agree(ctx, got, e, env, src):
    ctx.close(got, e.ev(env), 'value of the expression', source=src, env=env)


def expressions(ctx):
    r = ctx.rng
    names = rand_names(r, r.randint(1, 5))
    need = r.sample(names, r.randint(0, len(names)))
    e = rand_expr(r, names, r.choice([0, 1, 2, 3, 4]), need)
    src = e.src(r)
    ctx.describe(source=src)
    m = parse_math_expression(src)
    ctx.expect(set(m.Parents) == e.vars(), 'variables of the expression', source=src, got=m.Parents, expected=e.vars())
    for _ in range(3):
        env = {n: r.choice([r.randint(-4, 4), any_value(r), np.float64(r.uniform(-2, 2))]) for n in names}
        env['unrelated'] = 99
        before = dict(env)
        agree(ctx, m.execute(env), e, env, src)
        agree(ctx, m(env), e, env, src)
        ctx.expect(env == before, 'evaluation changed the given values', source=src)
        ctx.expect(m.is_executable(env) or 'max(' in src or 'min(' in src, 'a fully defined expression is not executable', source=src)
        l, _ = parse_loci('out = ' + src)
        agree(ctx, l.render(env), e, env, src)
        ctx.expect(set(l.Parents) == e.vars(), 'parents of the variable', source=src)
        for text in (str(m), repr(m)):
            again = parse_math_expression(text)
            agree(ctx, again.execute(env), e, env, text)
            ctx.expect(set(again.Parents) == e.vars(), 'variables of the printed expression', source=src, printed=text)
        l2, _ = parse_loci(str(l))
        agree(ctx, l2.render(env), e, env, str(l))
        ctx.expect(env == before, 'evaluation of a variable changed the given values', source=src)
    if e.vars():
        ctx.nontrivial(src)
        n = r.choice(sorted(e.vars()))
        less = {k: v for k, v in env.items() if k != n}
        ctx.expect(not m.is_executable(less), 'executable without a variable', source=src, missing=n)
        l, _ = parse_loci('out = ' + src)
        ctx.raises(KeyError, lambda: l.render(less), 'rendered without a parent', source=src, missing=n)


def user_functions(ctx):
    r = ctx.rng
    c = r.randint(2, 9)
    fn = 'fn_%d_%d' % (ctx.index, r.randint(0, 9999))
    calls = []

    def f(a, b):
        calls.append((a, b))
        return c * a - b
    add_math_func(fn, f)
    FNS[fn] = lambda a, b: c * a - b
    try:
        names = rand_names(r, 3)
        e = Call(fn, [rand_expr(r, names, 2, names[:1]), rand_expr(r, names, 1, names[1:2])])
        if r.random() < .6:
            e = Bin(r.choice('+-*'), e, rand_expr(r, names, 1))
        src = e.src(r)
        ctx.describe(source=src)
        env = {n: round(r.uniform(-3, 3), 3) for n in names}
        m = parse_math_expression(src)
        ctx.expect(set(m.Parents) == e.vars(), 'variables with a user function', source=src, got=m.Parents)
        agree(ctx, m.execute(env), e, env, src)
        l, _ = parse_loci('out = ' + src)
        agree(ctx, l.render(env), e, env, src)
        ctx.expect(len(calls) >= 2, 'user function was not called', source=src)
        ctx.nontrivial(src)
        # registering the name again replaces the function
        c2 = r.randint(2, 9)
        add_math_func(fn, lambda a, b: a + c2 * b)
        FNS[fn] = lambda a, b: a + c2 * b
        agree(ctx, parse_math_expression(src).execute(env), e, env, src)
        agree(ctx, m.execute(env), e, env, src)
        # a function which merely comes with the values is not registered by its use
        fn2 = 'once_' + fn
        src2 = '%s(%s) * 2' % (fn2, names[0])
        m2 = parse_math_expression(src2)
        known = {k for k in MATH_FUNC if k != '__builtins__'}
        for use in (lambda: m2.execute({**env, fn2: abs}), lambda: m2({**env, fn2: abs}),
                    lambda: parse_loci('out = ' + src2)[0].render({**env, fn2: abs}),
                    lambda: parse_distribution('k(%s)' % src2, loc={**env, fn2: abs})):
            try:
                use()
            except (NameError, KeyError, TypeError, AttributeError):
                pass
            ctx.expect(not m2.is_executable(env), 'an unregistered function is executable', source=src2)
            ctx.raises(NameError, lambda: m2.execute(env), 'an unregistered function was evaluated', source=src2)
        ctx.expect({k for k in MATH_FUNC if k != '__builtins__'} == known, 'evaluating registered a function', source=src2)
    finally:
        del FNS[fn]


def functions(ctx):
    """function calls with named and positional arguments"""
    r = ctx.rng
    names = rand_names(r, 4)
    pos = [rand_expr(r, names, r.choice([0, 1, 2])) for _ in range(r.randint(0, 3))]
    keys = r.sample(['k', 'tt', 'arg1', 'size', 'prob'], r.randint(0, 3))
    kw = [(k, rand_expr(r, names, r.choice([0, 1, 2]))) for k in keys]
    fname = r.choice(['my_func', 'g', 'lr'])
    src = '%s(%s)' % (fname, ', '.join([p.src(r) for p in pos] + ['%s=%s' % (k, e.src(r)) for k, e in kw]))
    ctx.describe(source=src)
    pf = parse_function(src)
    vs = set().union(*[e.vars() for e in pos + [e for _, e in kw]])
    ctx.expect(pf.Function == fname, 'name of the function', source=src, got=pf.Function)
    ctx.expect(set(pf.Parents) == vs, 'variables of the arguments', source=src, got=pf.Parents, expected=vs)
    env = {n: round(r.uniform(-2, 2), 3) for n in names}
    for args in (pf.get_arguments(env), evaluate_function(pf, env).Arguments, pf.to_blueprint('n', env)['Args']):
        ctx.expect(len(args) == len(pos) + len(kw), 'number of arguments', source=src, got=args)
        for a, e in zip(args, pos):
            ctx.expect('key' not in a, 'positional argument got a key', source=src)
            agree(ctx, a['value'], e, env, src)
        for a, (k, e) in zip(args[len(pos):], kw):
            ctx.expect(a.get('key') == k, 'key of an argument', source=src, got=a)
            agree(ctx, a['value'], e, env, src)
    ev = evaluate_function(pf, env).to_json()
    ctx.expect(ev['Type'] == fname and len(ev['Args']) == len(pos) + len(kw), 'json of the evaluated function', got=ev)
    if vs:
        ctx.nontrivial(src)
    if vs and not any(hasattr(builtins, v) for v in vs):
        ctx.raises(NameError, lambda: pf.get_arguments({}), 'evaluated without variables', source=src)


POINTS = {'exp': [0, 1, -1, .5, -700, 30, 700, -800, -1e5], 'log': [1, .5, 1e-300, 1e6, 3], 'sin': [0, 1, -2, 1e3], 'cos': [0, 1, -2, 1e3],
          'tan': [0, 1, -1, .3], 'abs': [0, -3, 2, -.5], 'sqrt': [0, 1, 2, 1e10, .25], 'floor': [0, 1, -1, 1.5, -1.5, 2.9999, -.1],
          'ceil': [0, 1, -1, 1.5, -1.5, 2.0001, -.9], 'erf': [0, .3, -1, 5, -7], 'expit': [0, 3, -3, 30, -30, 700, -700, 800, -800, -1e6, 1e6],
          'logit': [.5, .1, .999, 1e-9], 'pow': [(2, 3), (2, -1), (0, 0), (-2, 3), (4, .5), (0, 2)],
          'hypot': [(3, 4), (-3, 4), (0, 0), (1, 1)], 'max': [(1, 2), (2, 1), (1, 1)], 'min': [(1, 2), (2, 1), (1, 1)]}


def library(ctx):
    """each documented function at its turning points, and bare operators at ties"""
    r = ctx.rng
    f = r.choice(sorted(POINTS) + ['step'] * 6 + ['ifelse'] * 6 + ['operators'] * 8)
    env, tries = {}, []

    def arg(v):
        if r.random() < .5:
            k = r.choice(['x', 'rate_', 'Y2', 'ps', '_q']) + str(len(env))
            env[k] = v
            return Var(k)
        return Num(v)

    if f == 'step':
        cut, a, b = r.choice([0, 2, -1, .5]), r.choice([0, 1, 2.5]), r.choice([0, -1, 7])
        for k in (cut, cut - .25, cut + .25, cut - 1e-12 if cut else -1e-12, cut + 1e-9):
            tries.append(Call('step', [arg(k), arg(cut), arg(a), arg(b)]))
    elif f == 'ifelse':
        cut, a, b = r.choice([0, 2, -1, .5]), r.choice([0, 1, 2.5]), r.choice([0, -1, 7])
        for k in (cut, cut - .25, cut + .25):
            for c in IfElse.CMP:
                tries.append(IfElse(c, arg(k), arg(cut), arg(a), arg(b)))
        for k in (0, 1, -1, 2, .5, True, False, 0.0):
            tries.append(Cond(arg(k), arg(a), arg(b)))
    elif f != 'operators':
        for v in POINTS[f]:
            v = v if isinstance(v, tuple) else (v,)
            tries.append(Call(f, [arg(x) for x in v]))
    for e in tries:
        if r.random() < .4:
            e = Bin(r.choice('+-'), e, arg(r.choice([1, 2, .5])))
        src = e.src(r)
        ctx.describe(source=src, env=env)
        ctx.nontrivial(src)
        m = parse_math_expression(src)
        ctx.expect(set(m.Parents) == e.vars(), 'variables of the expression', source=src, got=m.Parents)
        agree(ctx, m.execute(env), e, env, src)
        l, _ = parse_loci('out = ' + src)
        agree(ctx, l.render(env), e, env, src)
        pf = parse_function('g(%s, k=%s)' % (src, src))
        for a in pf.get_arguments(env):
            agree(ctx, a['value'], e, env, src)
    if f == 'operators':
        # without parentheses: ordinary precedence and associativity
        n = r.randint(2, 5)
        ks = ['a', 'b2', 'c_', 'd', 'e1'][:n]
        env = {k: r.choice([r.randint(1, 5), round(r.uniform(.5, 3), 2)]) for k in ks}
        ops = [r.choice(['+', '-', '*', '/', '-', '/', '**', '%', '//']) for _ in ks[1:]]
        if ops.count('**') > 1:
            ops = [o if o != '**' else '*' for o in ops]
        sp = r.choice(['', ' '])
        src = r.choice(['', '-', '+']) + ks[0] + ''.join(sp + o + sp + k for o, k in zip(ops, ks[1:]))
        want = climb(src.replace(' ', ''), env)
        ctx.describe(source=src, env=env)
        ctx.nontrivial(src)
        m = parse_math_expression(src)
        ctx.expect(set(m.Parents) == set(ks), 'variables of an expression without parentheses', source=src)
        ctx.close(m.execute(env), want, 'value of an expression without parentheses', source=src, env=env)
        l, _ = parse_loci('out=' + src)
        ctx.close(l.render(env), want, 'value of an expression without parentheses', source=src, env=env)
        l, _ = parse_loci(str(l))
        ctx.close(l.render(env), want, 'value of a printed expression without parentheses', source=src, env=env)


def climb(src, env):
    """ordinary precedence: unary sign below powers, powers to the right, products, sums to the left"""
    toks = re.findall(r'\*\*|//|[-+*/%]|\w+', src)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def unary():
        if peek() in ('-', '+'):
            return -unary() if take() == '-' else unary()
        v = env[take()]
        if peek() == '**':
            take()
            v = v ** unary()
        return v

    def level(ops, below):
        v = below()
        while peek() in ops:
            o, w = take(), below()
            v = OPS[o](v, w)
        return v
    return level(('+', '-'), lambda: level(('*', '/', '%', '//'), unary))


def called(src):
    return set(re.findall(r'(\w+)\(', src))


def function_names(ctx):
    """variables which bear the name of a function that the expression does not call"""
    r = ctx.rng
    names = r.sample(sorted(FNS) + ['ifelse'], r.randint(1, 3)) + rand_names(r, 2)
    names = list(dict.fromkeys(names))
    for _ in range(50):
        e = rand_expr(r, names, r.choice([0, 1, 2]), names[:1])
        src = e.src(r)
        if not called(src) & set(names):
            break
    else:
        e = Bin('+', Var(names[0]), Num(2))
        src = e.src(r)
    ctx.describe(source=src)
    ctx.nontrivial(src)
    env = {n: r.choice([r.randint(-4, 4), round(r.uniform(-2, 2), 3)]) for n in names}
    m = parse_math_expression(src)
    ctx.expect(set(m.Parents) == e.vars(), 'variables named as functions', source=src, got=m.Parents, expected=e.vars())
    agree(ctx, m.execute(env), e, env, src)
    l, _ = parse_loci('out = ' + src)
    ctx.expect(set(l.Parents) == e.vars(), 'parents of the variable named as functions', source=src, got=l.Parents)
    agree(ctx, l.render(env), e, env, src)
    pf = parse_function('g(%s, q=%s)' % (src, src))
    ctx.expect(set(pf.Parents) == e.vars(), 'variables of arguments named as functions', source=src, got=pf.Parents)
    for a in pf.get_arguments(env):
        agree(ctx, a['value'], e, env, src)
    d, _ = parse_loci('out ~ k(%s)' % src)
    ctx.expect(set(d.Parents) == e.vars(), 'parents of a random variable named as functions', source=src, got=d.Parents)
    agree(ctx, d.render(env), e, env, src)


WORKLOADS = [('library', library, 500, 8000), ('expressions', expressions, 2400, 60000), ('user_functions', user_functions, 300, 4000),
             ('function_names', function_names, 200, 4000),
             ('functions', functions, 900, 20000)]
FLOOR = {'library': 150, 'expressions': 500, 'user_functions': 100, 'function_names': 50, 'functions': 200}
