"""C20: trees of cores: copies are faithful and isolated, structural operations do what they say."""
from rtm.core import same
from rtm.hier import World, visible, subtree, own_prior, check_core

ID = 'C20'
RULE = ('random hierarchies; random histories of breed/sibling/duplicate/prototype/remove/detach/clone/reset_sc against a '
        'model tree; after each operation every tree ever made is compared with its model; non-trivial if the tree '
        'has more than a root; distinct by script, hierarchy and operations')


def photo(pc):
    return (pc.Nickname, pc.Group, dict(pc.Locus), pc.LogPrior, [photo(c) for c in pc.Children.values()])


def alike(a, b, names=True):
    return ((a[0] == b[0] or not names) and a[1] == b[1] and set(a[2]) == set(b[2])
            and all(same(a[2][k], b[2][k], 0) for k in a[2]) and same(a[3], b[3], 1e-9)
            and len(a[4]) == len(b[4]) and all(alike(x, y) for x, y in zip(a[4], b[4])))


def links(ctx, root, log):
    for pc in subtree(root):
        for k, c in pc.Children.items():
            ctx.expect(c.Parent is pc and c.Nickname == k, 'a child is not linked to its parent', child=k, log=log)


def history(ctx):
    r = ctx.rng
    w = World(r, deterministic=r.random() < .5)
    net = w.net
    ctx.describe(**w.describe())
    roots = {'root': w.root}
    shots = {'root': photo(w.root)}
    log, serial = [], [0]

    def settle(*changed):
        """only the named trees may differ from what was known"""
        for k, rt in roots.items():
            if k in changed:
                shots[k] = photo(rt)
            else:
                ctx.expect(alike(photo(rt), shots[k]), 'an operation changed a tree it does not belong to', tree=k, log=log,
                           before=shots[k], after=photo(rt))
            links(ctx, rt, log)

    def fresh(s='n'):
        serial[0] += 1
        return '%s%d' % (s, serial[0])

    def address(pc):
        out = []
        while pc.Parent is not None:
            out.append(pc.Nickname)
            pc = pc.Parent
        return out[::-1]

    for _ in range(r.randint(3, 10)):
        rk = r.choice(sorted(roots))
        root = roots[rk]
        pc = r.choice(subtree(root))
        groups = [g.name for g in w.group[pc.Group].children]
        whole = rk.startswith(('root', 'clone'))
        op = r.choice(['breed', 'sibling', 'duplicate', 'prototype', 'remove', 'detach', 'clone', 'clone', 'reset',
                       'find', 'impulse', 'taken', 'set'])
        before = photo(root)
        if op == 'breed' and groups and whole:
            g, n = r.choice(groups), fresh()
            if r.random() < .5 and pc.Nickname not in pc.Children:
                n = pc.Nickname
            log.append((op, pc.Nickname, g, n))
            own = {fresh('note_'): round(r.uniform(-9, 9), 2) for _ in range(r.choice([0, 0, 1, 2]))}
            c = pc.breed(n, g, exo=dict(own)) if own else pc.breed(n, g)
            ctx.expect(all(k in c.Locus and c[k] == v for k, v in own.items()), 'values given to a bred core', log=log)
            ctx.count('bred with values', bool(own))
            ctx.expect(pc.Children[n] is c and pc.get_child(n) is c and c.Group == g and c.Parent is pc, 'breeding', log=log)
            check_core(ctx, net, c, 'a bred core')
            settle(rk)
            ctx.expect(n in [x[0] for x in photo(pc)[4]], 'a bred core is not a child', log=log)
        elif op == 'sibling' and pc.Parent is not None and whole:
            n = fresh()
            log.append((op, pc.Nickname, n))
            old, vis = photo(pc), visible(pc)
            c = pc.get_sibling(n)
            ctx.expect(c.Parent is pc.Parent and c.Group == pc.Group and pc.Parent.Children[n] is c, 'a sibling', log=log)
            ctx.expect(alike(photo(pc), old), 'a sibling changed the core', log=log)
            check_core(ctx, net, c, 'a sibling')
            settle(rk)
        elif op == 'duplicate' and whole:
            n = fresh()
            log.append((op, pc.Nickname, n))
            if pc.Parent is None:
                ctx.raises(AttributeError, lambda: pc.duplicate(n), 'a root was duplicated')
                settle()
                continue
            c = pc.duplicate(n)
            ctx.expect(c is not pc and c.Parent is pc.Parent and pc.Parent.Children[n] is c and c.Group == pc.Group,
                       'a duplicate', log=log)
            ctx.expect(set(c.Locus) == set(pc.Locus) and all(same(c[k], pc[k], 0) for k in pc.Locus), 'a duplicate has '
                       'other values', log=log, got=dict(c.Locus), expected=dict(pc.Locus))
            ctx.close(c.LogPrior, own_prior(net, pc), 'prior of a duplicate', tol=1e-6, log=log)
            ctx.expect(c.Locus is not pc.Locus, 'a duplicate shares its values')
            settle(rk)
        elif op == 'prototype' and groups and whole:
            g = r.choice(groups)
            log.append((op, pc.Nickname, g))
            c = pc.get_prototype(g)
            ctx.expect(c.Group == g and c.Parent is pc, 'a prototype', log=log)
            check_core(ctx, net, c, 'a prototype')
            settle()
        elif op == 'taken' and pc.Children and groups:
            n, g = r.choice(sorted(pc.Children)), r.choice(groups)
            log.append((op, pc.Nickname, n))
            if r.random() < .5:
                ctx.raises(ValueError, lambda: pc.breed(n, g), 'a used nickname was accepted', log=log)
            else:
                ctx.raises(KeyError, lambda: pc.breed(fresh(), 'no such group'), 'an unknown group was accepted')
            settle()
        elif op == 'remove' and pc.Children:
            n = r.choice(sorted(pc.Children))
            log.append((op, pc.Nickname, n))
            c, old = pc.Children[n], photo(pc.Children[n])
            others = [x for x in photo(pc)[4] if x[0] != n]
            out = pc.remove_children(n)
            ctx.expect(out is c and alike(photo(c), old), 'the removed child is not returned as it was', log=log)
            ctx.expect([x[0] for x in photo(pc)[4]] == [x[0] for x in others], 'removal', log=log)
            ctx.expect(pc.remove_children('no such child') is None, 'removing a missing child')
            settle(rk)
        elif op == 'detach' and (pc.Parent is not None):
            collect = whole and r.random() < .6
            log.append((op, pc.Nickname, collect))
            vis, own, pa, subs = visible(pc), dict(pc.Locus), pc.Parent, photo(pc)[4]
            pc.detach_from_parent(collect_pars=collect)
            ctx.expect(pc.Parent is None and pc.Nickname not in pa.Children, 'a detached core is still a child', log=log)
            exp = vis if collect else own
            ctx.expect(set(dict(pc)) == set(exp) and all(same(pc[k], exp[k], 0) for k in exp), 'values of a detached core',
                       log=log, got=dict(pc), expected=exp)
            ctx.expect(all(alike(a, b) for a, b in zip(photo(pc)[4], subs)) and len(subs) == len(pc.Children),
                       'detaching changed the children', log=log)
            for k in set(vis) - set(exp):
                ctx.raises(KeyError, lambda: pc[k], 'a detached core reads values of its former parent', variable=k)
            if len(vis) > len(own):
                ctx.count('detached below values')
            if collect:
                for k, s in pc.get_samplers(shared=False).items():
                    n = net[k]
                    v = s()
                    ctx.count('draws after detaching')
                    e = n.expected(vis) if all(p in vis for p in n.parents) else None
                    if e is not None:
                        ctx.close(v, e, 'a sampler of a detached core', variable=k, log=log, values=vis)
            nk = fresh('detached')
            roots[nk] = pc
            settle(rk, nk)
            pc.detach_from_parent(collect_pars=collect)
            ctx.expect(alike(photo(pc), shots[nk]), 'detaching twice')
        elif op == 'clone':
            if pc.Parent is not None:
                log.append((op, pc.Nickname))
                ctx.raises(AttributeError, lambda: pc.clone(), 'a core below the root was cloned as a root')
                settle()
                continue
            if not whole:
                continue
            copy_sc, kids = r.random() < .5, r.random() < .7
            log.append((op, pc.Nickname, copy_sc, kids))
            c = pc.clone(copy_sc=copy_sc, include_children=kids)
            a, b = before, photo(c)
            if not kids:
                a = a[:4] + ([],)
            ctx.expect(alike(a, b), 'a clone differs from its original', log=log, original=a, clone=b)
            mine = {id(x) for x in subtree(root)} | {id(x.Locus) for x in subtree(root)}
            ctx.expect(not any(id(x) in mine or id(x.Locus) in mine for x in subtree(c)), 'a clone shares parts with its '
                       'original', log=log)
            ctx.expect((c.SG is not pc.SG) == copy_sc and c.SG.SC.BN is pc.SG.SC.BN, 'the simulation core of a clone', log=log)
            if kids:
                x = subtree(c)
                ctx.expect(all(y.SG.SC is c.SG.SC for y in x), 'descendants of a clone belong to another core', log=log)
            ctx.close(c.DeepLogPrior, sum(own_prior(net, x) for x in subtree(c)), 'deep prior of a clone', tol=1e-6, log=log)
            if kids and pc.Children:
                ctx.count('cloned with children')
            nk = fresh('clone')
            roots[nk] = c
            settle(nk)
        elif op == 'reset' and whole and pc is root:
            log.append((op, pc.Nickname))
            sc = pc.SG.SC.clone()
            pc.reset_sc(sc)
            ctx.expect(all(x.SG is sc[x.Group] for x in subtree(pc)), 'a core keeps its former simulation core', log=log)
            settle()
        elif op == 'find' and pc is not root:
            ad = address(pc)
            log.append((op, ad))
            ctx.expect(root.find_descendant('@'.join(ad)) is pc, 'finding a descendant by its address', address=ad)
            ctx.raises(KeyError, lambda: root.find_descendant('@'.join(ad + ['nobody'])), 'an unknown address was found')
            settle()
        elif op == 'impulse' and whole:
            ks = [k for k in pc.Locus if k in net.nodes and net[k].kind == 'exo']
            rv = [k for k in pc.Locus if k in net.nodes and net[k].kind == 'dist']
            imp = {k: round(r.uniform(-1, 1), 3) for k in ks[:1]}
            imp.update({k: None for k in rv[:1]})
            log.append((op, pc.Nickname, imp))
            pc.impulse(imp)
            settle(rk)
        elif op == 'set':
            ks = sorted(pc.Locus)
            if not ks:
                continue
            k = r.choice(ks)
            v = pc[k]
            log.append((op, pc.Nickname, k))
            pc[k] = v
            pc[k + '_extra'] = 1.5
            ctx.expect(pc[k + '_extra'] == 1.5, 'a value was not set')
            for rk2, rt in roots.items():
                for x in subtree(rt):
                    ctx.expect((k + '_extra' in visible(x)) == any(y is pc for y in [x] + line(x)), 'a value set in a core is '
                               'visible elsewhere', log=log)
            del pc.Locus[k + '_extra']
            settle(rk)
    if r.random() < .02:        # a large family
        cs = [x for x in subtree(w.root) if w.group[x.Group].children]
        if cs:
            pc = r.choice(cs)
            g = r.choice(w.group[pc.Group].children).name
            olds = list(pc.Children.items())
            n = r.choice([60, 130])
            log.append(('brood', pc.Nickname, g, n))
            news = []
            for _ in range(n):
                k = fresh('b')
                news.append((k, pc.breed(k, g)))
            ctx.expect(list(pc.Children.items()) == olds + news, 'children of a large family', got=len(pc.Children), expected=n + len(olds))
            ctx.expect(all(c.Parent is pc and c.Group == g for _, c in news), 'parents of a large family')
            settle('root')
            ctx.count('large families')
    for rt in roots.values():
        for pc in subtree(rt):
            if pc is not rt:
                ad = '@'.join(address(pc))
                ctx.expect(rt.find_descendant(ad) is pc, 'finding a descendant by its address', address=ad, log=log)
    if len(subtree(roots['root'])) > 1:
        ctx.nontrivial((net.script(), w.groups.text(), log))
    ctx.describe(log=log)


def line(pc):
    out = []
    while pc.Parent is not None:
        pc = pc.Parent
        out.append(pc)
    return out


WORKLOADS = [('histories', history, 1200, 24000)]
FLOOR = {'histories': 300}
