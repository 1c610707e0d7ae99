"""C29: the monitor's timeline."""
import copy
import logging
import os
import tempfile
import numpy as np
import pandas as pd
from rtm.core import same
from sims_pars.monitor import Monitor

ID = 'C29'
RULE = ('random histories of keep/step/reset/export on monitors, with explicit, repeated and backward times, against a model '
        'list of records; distinct by history')


def rand_val(r):
    return r.choice([r.randint(-9, 9), round(r.uniform(-9, 9), 3), float('inf'), 0, 1e9, float('nan'), -float('inf'), r.uniform(-9, 9),
                     r.uniform(1, 9) * 10 ** r.randint(-12, 12)])


def rand_note(r):
    return r.choice([{'x': 1}, {'y': r.randint(0, 3)}, {'x': 2, 'z': {'q': 1}}, [1, 2], ['a'], 'text', None, True])


def objects(ctx):
    """values which are not numbers are kept as they are"""
    r = ctx.rng
    mon = Monitor('obj', stream_handler=False)
    log, recs, last = [], [], {}
    for _ in range(r.randint(4, 14)):
        if r.random() < .65:
            k, v = r.choice('AB'), rand_note(r)
            w = copy.deepcopy(v)
            mon.keep(**{k: v})
            last[k] = (v, w)
            log.append((k, w))
        else:
            recs.append(last)
            last = {}
            mon.step()
        for k, (v, w) in list(last.items()) + [x for d in recs for x in d.items()]:
            ctx.expect(v == w, 'the value of a user was changed', key=k, got=v, expected=w, log=log)
        for k, (v, w) in last.items():
            ctx.expect(mon[k] == w, 'a current value', key=k, got=mon[k], expected=w, log=log)
    ctx.describe(log=log)
    ctx.nontrivial((str(log), len(recs)))
    if recs:
        t = mon.Trajectories
        ctx.expect(len(t) == len(recs), 'rows of the table', got=len(t))
        for i, d in enumerate(recs):
            for k, (v, w) in d.items():
                got = t[k].iloc[i]
                ctx.expect(got == w or w is None and (got is None or got != got), 'a value of the table', row=i, column=k, got=got, expected=w)


def check_table(ctx, mon, recs, log):
    ctx.expect(len(mon.Records) == len(recs), 'number of records', got=len(mon.Records), expected=len(recs), log=log)
    if not recs:
        return None
    t = mon.Trajectories
    ctx.expect(len(t) == len(recs) and t.index.name == 'Time', 'rows of the table', got=len(t))
    ctx.expect(list(t.index) == [x['Time'] for x in recs], 'times of the table', got=list(t.index), expected=[x['Time'] for x in recs])
    keys = set().union(*[set(x) for x in recs]) - {'Time'}
    ctx.expect(set(t.columns) == keys, 'columns of the table', got=list(t.columns), expected=sorted(keys))
    for i, x in enumerate(recs):
        for k in keys:
            got = t[k].iloc[i]
            if k in x:
                ctx.close(got, x[k], 'a value of the table', row=i, column=k, log=log)
            else:
                ctx.expect(pd.isna(got), 'a value appears which was not recorded', row=i, column=k, got=got)
    return t


def timeline(ctx):
    r = ctx.rng
    mon = Monitor('m%d' % r.randint(0, 3), stream_handler=False)
    time, recs, last, log, kept = 0, [], {}, [], []
    start = r.choice([None, 5, 2000])
    if start is not None:
        mon.reset(start)
        time = start
    for _ in range(r.randint(3, 25)):
        op = r.choice(['keep', 'keep', 'step', 'step', 'at', 'same', 'back', 'reset', 'look', 'csv'] if len(log) > 6 else
                      ['keep', 'keep', 'step', 'at', 'look'])
        if op == 'keep':
            new = {k: rand_val(r) for k in r.sample(['A', 'B', 'C', 'Eps', 'Round'], r.randint(1, 3))}
            if recs and r.random() < .35:     # the same values as at the last time
                new = {k: v for k, v in recs[-1].items() if k != 'Time'} or new
                ctx.count('repeated records')
            mon.keep(**new)
            last.update(new)
            log.append(('keep', new))
        elif op in ('step', 'at'):
            if op == 'step':
                mon.step()
                nt = time + 1
            else:
                nt = time + r.choice([1, 3, .5, .25])
                mon.step(nt) if r.random() < .5 else mon.step(time=nt)
            recs.append(dict(last, Time=time))
            last, time = {}, nt
            log.append((op, nt))
            ctx.count('steps')
        elif op == 'same':
            mon.step(time)
            log.append(('step', time))
        elif op == 'back':
            bad = time - r.choice([1, .5, 1e-6])
            log.append(('step', bad))
            ctx.raises(KeyError, lambda: mon.step(bad), 'time went backwards', time=time, to=bad)
            if time > 0:
                ctx.raises(KeyError, lambda: mon.step(0), 'time went back to zero', time=time)
        elif op == 'reset':
            time = r.choice([0, 0, 3, 50])
            mon.reset(time) if time or r.random() < .5 else mon.reset()
            recs, last = [], {}
            log.append(('reset', time))
        elif op == 'look':
            t = check_table(ctx, mon, recs, log)
            if t is not None:
                kept.append((t, t.copy()))
        elif op == 'csv' and recs:
            d = tempfile.mkdtemp()
            f = os.path.join(d, 'x.csv')
            mon.save_trajectories(f)
            back = pd.read_csv(f, float_precision='round_trip')
            os.remove(f)
            os.rmdir(d)
            ctx.expect(len(back) == len(recs), 'rows of a saved table')
            for i, x in enumerate(recs):
                for k, v in x.items():
                    ctx.close(back[k].iloc[i], v, 'a value of a saved table', tol=1e-14, row=i, column=k)
                    if isinstance(v, float) and 0 < abs(v) < 1:
                        ctx.expect(abs(back[k].iloc[i] / v - 1) < 1e-13, 'a small value of a saved table', got=back[k].iloc[i], expected=v)
        ctx.expect(mon.Time == time, 'time', got=mon.Time, expected=time, log=log)
        for k, v in last.items():
            ctx.expect(same(mon[k], v, 0), 'a current value', key=k, got=mon[k], expected=v, log=log)
        ctx.raises(KeyError, lambda: mon['nobody'], 'an unrecorded value was read')
    check_table(ctx, mon, recs, log)
    for a, b in kept:
        ctx.expect(a.equals(b), 'a table changed after it was taken', log=log)
    ctx.describe(log=log)
    ctx.nontrivial(log)


def independent(ctx):
    """monitors of the same name do not share their records"""
    r = ctx.rng
    ms = [Monitor('shared', stream_handler=False) for _ in range(3)]
    ref = [[] for _ in ms]
    log = []
    for _ in range(r.randint(4, 15)):
        i = r.randint(0, 2)
        v = rand_val(r)
        log.append((i, v))
        ms[i].keep(V=v)
        ref[i].append(dict(Time=ms[i].Time, V=v))
        ms[i].step()
    for m, x in zip(ms, ref):
        check_table(ctx, m, x, log)
    ctx.nontrivial(log)
    ctx.describe(log=log)


def logfile(ctx):
    """messages reach the log file, in order, while the timeline is kept"""
    r = ctx.rng
    d = tempfile.mkdtemp()
    f = os.path.join(d, 'run.log')
    mon = Monitor('log%d-%d' % (ctx.case_seed % 10 ** 9, ctx.index), stream_handler=False)
    logging.disable(logging.NOTSET)
    try:
        mon.set_log_path(f)
        mon.Logger.propagate = False
        msgs, since = [], None
        n = r.randint(1, 6)
        again = r.randrange(n) if r.random() < .4 else None
        for i in range(n):
            if i == again:
                # a second file, from now on
                mon.set_log_path(f + '2')
                since = i
            lv = r.choice(['info', 'warning', 'error'])
            msgs.append((lv, 'message %d of %s' % (i, lv)))
            getattr(mon, lv)(msgs[-1][1])
            mon.keep(I=i)
            mon.step()
        for h in mon.Logger.handlers:
            h.flush()
        lines = open(f).read().strip().split('\n')
        second = open(f + '2').read().strip().split('\n') if since is not None else None
    finally:
        logging.disable(logging.CRITICAL)
        for h in list(mon.Logger.handlers):
            h.close()
            mon.Logger.removeHandler(h)
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.rmdir(d)
    ctx.nontrivial(msgs)
    ctx.expect(len(lines) == len(msgs), 'number of lines in the log', got=lines, expected=msgs)
    for ln, (lv, m) in zip(lines, msgs):
        ctx.expect(lv.upper() in ln and m in ln, 'a message in the log', got=ln, expected=(lv, m))
    if since is not None:
        ctx.expect(len(second) == len(msgs) - since and all(m in ln for ln, (_, m) in zip(second, msgs[since:])), 'messages in a second '
                   'log', got=second, expected=msgs[since:])
    ctx.expect(len(mon.Records) == len(msgs), 'records while logging')


def long(ctx):
    """many steps: nothing gets lost or mixed up"""
    r = ctx.rng
    mon = Monitor('long', stream_handler=False)
    n = r.choice([300, 700, 1200, 2500])
    ks = ['A', 'B', 'C', 'D'] if r.random() < .7 else ['k%d' % i for i in range(40)]
    recs, time = [], 0
    for i in range(n):
        d = {k: rand_val(r) for k in r.sample(ks, r.randint(0, len(ks)) if r.random() < .9 else len(ks))}
        mon.keep(**d)
        recs.append(dict(d, Time=time))
        time += 1
        if r.random() < .1:
            time += .5
            mon.step(time)
        else:
            mon.step()
    ctx.describe(steps=n, names=len(ks))
    ctx.nontrivial((n, len(ks), str(recs[:3])))
    ctx.expect(len(mon.Records) == n, 'number of records', got=len(mon.Records), expected=n)
    for got, x in zip(mon.Records, recs):
        ctx.expect(set(got) == set(x) and all(same(got[k], v, 0) for k, v in x.items()), 'a record of a long run', got=got, expected=x)
    t = mon.Trajectories
    ctx.expect(list(t.index) == [x['Time'] for x in recs], 'times of the table of a long run')
    for k in sorted(set().union(*recs) - {'Time'}):
        col = t[k].to_numpy(dtype=float)
        want = np.array([x.get(k, float('nan')) for x in recs], dtype=float)
        ctx.expect(np.array_equal(col, want, equal_nan=True), 'a column of the table of a long run', column=k)
    ctx.expect(mon.Time == time, 'time after a long run')


WORKLOADS = [('long', long, 24, 300), ('timeline', timeline, 800, 20000), ('independent', independent, 150, 3000), ('logfile', logfile, 60, 800),
             ('objects', objects, 150, 3000)]
FLOOR = {'timeline': 300, 'independent': 50, 'logfile': 20, 'objects': 60, 'steps': 1000}
