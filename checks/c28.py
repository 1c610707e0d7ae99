"""C28: history matching with emulators."""
import math
import numpy as np
from rtm.core import same, Inconclusive
from rtm.models import check_pars, rand_model, ref_moments
from sims_pars.fit.converter import get_converter
from sims_pars.fit.hme import BayesHistoryMatching
from sims_pars.fit.hme.emulator import GPREmulator

ID = 'C28'
RULE = ('random models and settings; every wave is captured when it ends and recomputed: simulated designs from the log of '
        'simulations, implausibility from targets and emulators, bounds, acceptance and error from the kept points; distinct by '
        'script, targets and settings')
ASSUMPTIONS = ['emulators are judged by what they are trained on, by the consistency of their predictions, and on smooth outputs by their accuracy']


class Spy(BayesHistoryMatching):
    def __init__(self, **kw):
        self.waves = []
        self.hook = None
        BayesHistoryMatching.__init__(self, **kw)

    @property
    def State(self):
        return self.__dict__.get('_state')

    @State.setter
    def State(self, v):
        self.__dict__['_state'] = v
        if v is not None and self.hook:
            self.hook(v)


class Always:
    def ev(self, env):
        return 1.0

    def src(self):
        return 'always'


def matching(ctx):
    r = ctx.rng
    m = rand_model(r, n=r.randint(1, 3), describe=ctx.describe, noise=r.choice([0, 0, .1]), budget=5000, n_out=r.choice([1, 2, 2, 3, 4]),
                   laws=['norm', 'unif', 'gamma', 'exp', 'beta'])
    k = len(m.Free)
    flat = ctx.index % 8 == 5
    if flat:
        # nothing happens in any simulation: all that is emulated is equally implausible, or nearly
        m.Fail, m.Noise = (Always(), .5, 0.0), 0
    st = dict(max_wave=r.choice([1, 2, 3]), var_model=r.choice([.1, 1, 5]), cutoff=r.choice([.02, .1, .5, 3]), min_acc=r.choice([.1, .3, .6]))
    if r.random() < .6:
        st['n_sims'] = r.choice([5, 8, 12])
        st['n_ems'] = r.choice([30, 60])
    elif r.random() < .5:
        st['n_ems'] = 40
    else:
        st['n_sims'] = 1 + k
    n_sims = st.get('n_sims', 10 * k)
    n_ems = st.get('n_ems', 100 * n_sims)
    if ctx.index % 8 == 3:
        st.update(r.choice([{'min_acc': 0}, {'n_ems': 1}, {'n_ems': 11, 'min_acc': .5, 'cutoff': .02}]))
        n_ems = st.get('n_ems', n_ems)
    if n_ems > 600:
        st['n_ems'] = n_ems = 50
    if ctx.index % 4 == 2:
        # a wave in which nearly everything is plausible: the cut-off is put high among what a pilot wave emulates
        st.update(n_sims=st.get('n_sims', 10), n_ems=r.choice([60, 150]), max_wave=1)
        n_sims, n_ems = st['n_sims'], st['n_ems']
        pilot = BayesHistoryMatching(**dict(st, cutoff=1e9))
        pilot.fit(m)
        st['cutoff'] = float(np.quantile([p['Imp'] for p in pilot.State.Particles], r.choice([.93, .96, .98])))
        m.calls.clear()
        ctx.count('cut-offs from a pilot')
    ctx.describe(settings=st, flat=flat)
    alg = Spy(**st)
    doms = {d.Name: d for d in m.Domain}
    names = list(m.FreeParameters)
    seen, tape, ask = [], {}, {}

    def listen(q, e):
        ask[q] = e.predict

        def predict(xs, *a, **kw):
            out = ask[q](xs, *a, **kw)
            try:
                tape.setdefault(q, []).append((np.array(xs, float).reshape(-1, k), np.ravel(out[0]).copy(), np.ravel(out[1]).copy()))
            except (TypeError, ValueError, IndexError):
                tape.setdefault(q, []).append(None)
            return out
        try:
            e.predict = predict
        except AttributeError:
            pass

    def emulated():
        """points and implausibilities of all that was emulated in a wave, where the emulators could be overheard"""
        if set(tape) != set(m.Data) or any(None in v for v in tape.values()):
            return None
        got = {q: [np.concatenate(x) for x in zip(*v)] for q, v in tape.items()}
        xs = got[list(m.Data)[0]][0]
        if len(xs) != n_ems or any(v[0].shape != xs.shape or not np.array_equal(v[0], xs) for v in got.values()):
            return None
        mo = {q: ref_moments(m.Targets[q]) for q in m.Data}
        return xs, np.max([np.abs(mo[q][0] - got[q][1]) / np.sqrt(st['var_model'] + mo[q][1] + got[q][2]) for q in m.Data], axis=0)

    def hook(s):
        # everything is read while the emulators are those of this wave
        if not ask:
            for q, e in s.Emulators.items():
                listen(q, e)
        rec = dict(wave=s.Wave, bounds=(np.array(s.Bounds[0]).copy(), np.array(s.Bounds[1]).copy()), n_calls=len(m.calls),
                   cutoff=s.CutOff, acc=s.Acc, mse=s.MSE,
                   pts=[dict(pars=dict(p.Pars), xs=np.array(p['Xs']), ys={q: float(np.ravel(p['Ys'][q])[0]) for q in m.Data},
                             vs={q: float(np.ravel(p['Vs'][q])[0]) for q in m.Data}, imp=float(p['Imp'])) for p in s.Particles])
        if s.Particles:
            xs = np.array([p['Xs'] for p in s.Particles])
            rec['all'] = emulated()
            tape.clear()
            pred = {q: ask[q](xs) for q in s.Emulators}
            tape.clear()
            rec['pred'] = {q: (np.ravel(v[0]).copy(), np.ravel(v[1]).copy()) for q, v in pred.items()}
            rec['train'] = {}
            for q, e in s.Emulators.items():
                data = getattr(e.GP, 'data', None)
                if data is not None:
                    rec['train'][q] = (np.array(data[0]), np.array(data[1]))
        seen.append(rec)
    alg.hook = hook
    alg.fit(m)
    ctx.nontrivial((m.Net.script(), str(m.Targets), str(st)))
    cvs = {q: get_converter(doms[q]) for q in names}
    waves = st['max_wave']
    ctx.expect([s['wave'] for s in seen] == list(range(waves + 1)), 'waves', got=[s['wave'] for s in seen], expected=waves)
    ctx.expect(np.allclose(seen[0]['bounds'][0], 0) and np.allclose(seen[0]['bounds'][1], 1) and len(seen[0]['bounds'][0]) == k,
               'the first wave does not span the whole domain')
    ctx.expect(len(m.calls) == n_sims * waves, 'number of simulations', got=len(m.calls), expected=n_sims * waves)
    for a, b in zip(seen, seen[1:]):
        lo, hi = a['bounds']
        ctx.count('waves')
        log = m.calls[a['n_calls']:b['n_calls']]
        ctx.expect(len(log) == n_sims, 'number of simulations in a wave', got=len(log), expected=n_sims)
        design = []
        for p, ys, _ in log:
            check_pars(ctx, m, p, 'simulated parameters')
            design.append([cvs[q].value2uniform(p[q]) for q in names])
        design = np.array(design)
        ctx.expect(bool(np.all(design >= lo - 1e-6) and np.all(design <= hi + 1e-6)), 'a simulation is outside the bounds', lo=lo, hi=hi)
        for j in range(k):
            if hi[j] - lo[j] > 1e-6:
                u = (design[:, j] - lo[j]) / (hi[j] - lo[j]) * n_sims
                if np.all(np.abs(u - np.round(u)) > 1e-5):
                    ctx.expect(sorted(np.floor(u).astype(int)) == list(range(n_sims)), 'the simulations do not cover the bounds evenly',
                               cells=sorted(np.floor(u).astype(int)))
                    ctx.count('designs')
        for q, (xs, ys) in b['train'].items():
            ctx.expect(xs.shape == design.shape and np.allclose(xs, design, atol=1e-6), 'an emulator is trained on other points',
                       output=q)
            ctx.expect(np.allclose(np.ravel(ys), [c[1][q] for c in log], rtol=1e-6, atol=1e-9), 'an emulator is trained on other '
                       'outputs', output=q, got=np.ravel(ys), expected=[c[1][q] for c in log])
            ctx.count('training sets')
        pts = b['pts']
        ctx.expect(len(pts) > 0, 'nothing is plausible')
        ctx.close(b['acc'], len(pts) / n_ems, 'acceptance', kept=len(pts), emulated=n_ems)
        ctx.expect(b['acc'] <= 1 and b['cutoff'] >= st['cutoff'] - 1e-12, 'cut-off', cutoff=b['cutoff'], setting=st['cutoff'])
        if b['cutoff'] > st['cutoff'] * (1 + 1e-9):
            ctx.count('cut-off relaxed')
            # the cut-off is relaxed to the min_acc quantile of n_ems implausibilities
            # (several may be as implausible as the cut-off itself)
            e = math.floor(st['min_acc'] * (n_ems - 1))
            under = sum(p['imp'] < b['cutoff'] * (1 - 1e-9) for p in pts)
            ctx.expect(under <= e + 2 and len(pts) >= max(e, 1), 'the relaxed cut-off keeps another share of the points', kept=len(pts),
                       under=under, emulated=n_ems, min_acc=st['min_acc'])
        if b['all'] is not None:
            exs, imps = b['all']
            ctx.count('waves overheard')
            ctx.close(b['cutoff'], max(st['cutoff'], float(np.quantile(imps, st['min_acc']))), 'cut-off of a wave', tol=1e-6,
                      setting=st['cutoff'], min_acc=st['min_acc'])
            few, many = int(np.sum(imps < b['cutoff'] * (1 - 1e-9))), int(np.sum(imps <= b['cutoff'] * (1 + 1e-9)))
            ctx.expect(few <= len(pts) <= many, 'the points kept are not the plausible ones', kept=len(pts), plausible=(few, many))
            sure = {tuple(x) for x, i in zip(exs, imps) if i < b['cutoff'] * (1 - 1e-9)}
            got = {tuple(p['xs']) for p in pts}
            ctx.expect(sure <= got <= {tuple(x) for x in exs}, 'a plausible point was dropped', missing=len(sure - got))
        for i, p in enumerate(pts):
            imp = 0
            for q in m.Data:
                e, v = ref_moments(m.Targets[q])
                imp = max(imp, abs(e - p['ys'][q]) / math.sqrt(st['var_model'] + v + p['vs'][q]))
                ctx.close(p['ys'][q], b['pred'][q][0][i], 'an emulated output is not that of the emulator', tol=1e-5, output=q)
                ctx.expect(abs(p['vs'][q] - b['pred'][q][1][i]) <= 1e-6 + 1e-4 * abs(p['vs'][q]), 'an emulated variance is not '
                           'that of the emulator', output=q, got=p['vs'][q], expected=b['pred'][q][1][i])
            ctx.close(p['imp'], imp, 'implausibility of a point', tol=1e-6, point=p)
            ctx.expect(p['imp'] <= b['cutoff'] * (1 + 1e-9), 'an implausible point was kept', imp=p['imp'], cutoff=b['cutoff'])
            ctx.expect(bool(np.all(p['xs'] >= lo - 1e-12) and np.all(p['xs'] <= hi + 1e-12)), 'an emulated point is outside the '
                       'bounds')
            for q, x in zip(names, p['xs']):
                ctx.close(p['pars'][q], cvs[q].uniform2value(x), 'parameters of an emulated point', tol=1e-6, parameter=q)
        xs = np.array([p['xs'] for p in pts])
        ctx.expect(np.allclose(b['bounds'][0], xs.min(0)) and np.allclose(b['bounds'][1], xs.max(0)), 'bounds are not those of the '
                   'kept points', got=b['bounds'])
        mse = np.mean([np.mean([(p['ys'][q] - ref_moments(m.Targets[q])[0]) ** 2 for q in m.Data]) for p in pts])
        ctx.close(b['mse'], mse, 'mean squared error', tol=1e-6)
    last = seen[-1]
    m.calls.clear()
    n = r.choice([1, 7])
    post = alg.sample_posteriors(n)
    lo, hi = last['bounds']
    ctx.expect(len(post) == n and len(m.calls) == n and post.Algorithm == 'HME', 'posterior', got=len(post), algorithm=post.Algorithm)
    for pt, (p, ys, _) in zip(post.Particles, m.calls):
        ctx.expect(dict(pt.Pars) == p and dict(pt.Sims) == ys, 'a posterior particle was not simulated')
        check_pars(ctx, m, p, 'posterior parameters')
        for j, q in enumerate(names):
            u = cvs[q].value2uniform(p[q])
            ctx.expect(lo[j] - 1e-6 <= u <= hi[j] + 1e-6, 'a posterior particle is outside the bounds', parameter=q)
        ctx.expect(pt['Ys'] == {q: ys[q] for q in m.Data} and list(pt['Xs']) == [p[q] for q in names], 'outputs of a particle')
    for key, v in (('MSE', last['mse']), ('Acceptance', last['acc']), ('CutOff', last['cutoff'])):
        ctx.close(post[key], v, 'reported ' + key)
    ctx.expect([b[0] for b in post['Bounds']] == names, 'reported bounds')
    for (q, a, b), l, h in zip(post['Bounds'], lo, hi):
        ctx.close(a, cvs[q].uniform2value(l), 'reported lower bound', tol=1e-6, parameter=q)
        ctx.close(b, cvs[q].uniform2value(h), 'reported upper bound', tol=1e-6, parameter=q)
        ctx.expect(a <= b, 'reported bounds are reversed')


def emulating(ctx):
    """an emulator learns a smooth output (some optimisations end early: one of eight must not)"""
    r = ctx.rng
    tried = []
    for i in range(8):
        n = r.choice([10, 14])
        a, b, w, ph = r.uniform(-1, 1), r.uniform(2, 8), r.uniform(4, 8), r.uniform(0, 6)
        xs = [np.array([(j + r.random()) / n]) for j in range(n)]
        ys = [a + b * math.sin(w * x[0] + ph) for x in xs]
        e = GPREmulator('y')
        e.train(xs, [{'y': y, 'z': r.random()} for y in ys])
        mean, var = e.predict(np.array(xs))
        ctx.expect(len(np.ravel(mean)) == n == len(np.ravel(var)) and bool(np.all(np.ravel(var) > -1e-6)), 'predictions of an emulator')
        tried.append(float(np.sqrt(np.mean((np.ravel(mean) - ys) ** 2)) / np.std(ys)))
        ctx.count('emulators')
        if tried[-1] < .2:
            break
    ctx.nontrivial((round(a, 9), round(b, 9)))
    ctx.expect(tried[-1] < .2, 'emulators do not follow what they are trained on', errors=tried)


WORKLOADS = [('matching', matching, 32, 1000, {'cpu': 200}), ('emulating', emulating, 4, 100, {'cpu': 200})]
FLOOR = {'matching': 10, 'waves': 20}    # ('waves overheard' is not required: another design of emulators may not allow it)
