"""C08: networks survive their script, JSON, copy and clone."""
from rtm.bnlib import build, check_meaning, check_order, full_env, through_text, snapshot
from rtm.gen import rand_net, Node, Call, Var, Net
from sims_pars import bayes_net_from_script, bayes_net_from_json
from sims_pars.util import ScriptException

ID = 'C08'
RULE = ('random networks sent through random chains of script, JSON text, copy and clone; non-trivial if there are '
        'functions or distributions; distinct by script and chain')


def hop(r, bn, kind):
    if kind == 'script':
        return bayes_net_from_script(bn.to_script())
    if kind == 'json':
        return bayes_net_from_json(bn.to_json())
    if kind == 'text':
        return bayes_net_from_json(through_text(bn.to_json()))
    if kind == 'clone':
        return bn.clone()
    if kind == 'thaw':
        bn.defrost()
        bn.complete()
        return bn
    return bn.copy(kind)


def chains(ctx):
    r = ctx.rng
    net = rand_net(r, r.choice([1, 2, 4, 7, 12] * 4 + [40]), des=True, p_pseudo=r.choice([0, 0, .2]))
    bn = build(r, net, complete=True)
    if not bn.is_frozen():
        bn.complete()
    env = full_env(r, net)
    chain = [r.choice(['script', 'json', 'text', 'clone', 'thaw', 'copy', 'Renamed']) for _ in range(r.randint(1, 4))]
    ctx.describe(script=net.script(), chain=chain)
    if any(n.kind in ('func', 'dist') for n in net.nodes.values()):
        ctx.nontrivial((net.script(), chain))
    name = net.name
    for c in chain:
        before = snapshot(bn)
        prev = bn
        bn = hop(r, bn, None if c == 'copy' else c)
        if c != 'thaw':
            ctx.expect(snapshot(prev) == before, 'exporting a network changed it', hop=c)
        name = 'Renamed' if c == 'Renamed' else name
        ctx.expect(bn.Name == name, 'name of the network', hop=c, got=bn.Name, expected=name)
        ctx.expect(bn.is_frozen(), 'an imported network is not complete', hop=c)
        ctx.expect(set(bn.DAG.nodes()) == set(net.nodes), 'variables after ' + c, got=sorted(bn.DAG.nodes()),
                   expected=sorted(net.nodes))
        check_order(ctx, list(bn.Order), net)
        check_meaning(ctx, bn, net, env)
        ctx.count('hop ' + c)


def layouts(ctx):
    """the same network however its script is laid out"""
    r = ctx.rng
    net = rand_net(r, r.randint(1, 8) if r.random() < .95 else 35, p_pseudo=r.choice([0, 0, .2]))
    lines = [n.definition(r) for n in net.nodes.values() if n.kind != 'exo' or not net.chd[n.name]]
    r.shuffle(lines)
    text = [r.choice(['PCore', 'pcore', 'PCORE', 'Pcore']) + r.choice([' ', '  ', '\t']) + net.name + r.choice([' {', '{', '\t{'])]
    for ln in lines:
        for _ in range(r.choice([0, 0, 1])):
            text.append(r.choice(['', '   ', '\t', '# a comment', '  # x = 5', '#']))
        text.append(r.choice(['', '  ', '\t', ' \t ']) + ln + r.choice(['', ' ', '\t', ' # note', '#n', ' #']))
    text.append(r.choice(['}', '  }', '\t}']))
    text = [r.choice(['', '', '\n'])] + text + [r.choice(['', '\n'])]
    script = '\n'.join(text)
    ctx.describe(script=script)
    ctx.nontrivial(script)
    bn = bayes_net_from_script(script)
    ctx.expect(bn.Name == net.name and bn.is_frozen(), 'name of the network', got=bn.Name)
    ctx.expect(set(bn.Order) == set(net.nodes), 'variables of the script', got=bn.Order, expected=sorted(net.nodes))
    check_meaning(ctx, bn, net, full_env(r, net))
    ctx.raises(ScriptException, lambda: bayes_net_from_script('\n'.join(lines)), 'a script without a head was accepted')


def functions(ctx):
    """functions kept with a network belong to it alone"""
    r = ctx.rng
    net = rand_net(r, r.randint(1, 5))
    bn = build(r, net)
    ctx.describe(script=net.script())
    ctx.nontrivial(net.script())
    bn.add_user_defined_func('fa', abs)
    b2 = bn.copy(r.choice([None, 'Other']))
    ctx.expect(b2.UserDefinedFunctions.get('fa') is abs, 'a function is missing in a copy')
    b2.add_user_defined_func('fb', max)
    ctx.expect('fb' not in bn.UserDefinedFunctions, 'a function added to a copy is in its original')
    bn.add_user_defined_func('fc', min)
    ctx.expect('fc' not in b2.UserDefinedFunctions, 'a function added to a network is in its copy')
    try:
        bn.add_user_defined_func('fa', max)
    except Exception:   # (a name is taken once)
        ctx.count('taken names')
    ctx.expect(bn.UserDefinedFunctions.get('fa') is abs, 'a function was replaced', got=bn.UserDefinedFunctions)
    b3 = b2.copy()
    ctx.expect(b3.UserDefinedFunctions == {'fa': abs, 'fb': max}, 'functions of a copy of a copy', got=b3.UserDefinedFunctions)


WORKLOADS = [('chains', chains, 600, 10000), ('layouts', layouts, 400, 6000),
             ('functions', functions, 60, 600)]
FLOOR = {'chains': 150, 'layouts': 100}
