"""
C12: derived fields of correlation headers. Header.tla; random histories of
assignments (by item, by attribute, by update, via the data of a trace),
copies, rebuilding, pickling, saving and loading, over several headers.
"""
import copy
import os
import pickle
import shutil

import h5py
import numpy as np
from obspy import UTCDateTime

from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrTrace
from seismic.db.corr_hdf5 import convert_header_to_hdf5, read_hdf5_header

import dbdrive as dd
from vf import code, quiet

BASE = dd.BASE
N = 3


def us(x):
    return int(round(float(x) * 1e6))


def observe(s):
    keys = set(s.__dict__)
    std = set(CorrStats.defaults) | {'processing', '_format'}
    cha = s['channel'].split('-')
    o = dict(
        dt=us(s['delta']), rate=us(s['sampling_rate']),
        rateXdt=us(s['delta'] * s['sampling_rate']),
        lag0=us(s['start_lag']), lag1=us(s['end_lag']), npts=int(s['npts']),
        cs=int(round(s['corr_start'] - BASE)),
        ce=int(round(s['corr_end'] - BASE)),
        start=int(round(s['starttime'] - BASE)),
        end=int(round(s['endtime'] - BASE)),
        net=code(s['network']), sta=code(s['station']),
        loc=code(s['location']), cha=[code(x) for x in cha],
        extra=[[k, str(s[k])] for k in sorted(keys - std)])
    o['asitem'] = bool(
        s.delta == s['delta'] and s.sampling_rate == s['sampling_rate']
        and s.end_lag == s['end_lag'] and s.endtime == s['endtime']
        and s.npts == s['npts'] and dict(s)['end_lag'] == s['end_lag'])
    o['idok'] = s['id'] == '%s.%s.%s' % (
        s['network'], s['station'], s['channel'])
    if len(cha) == 2 and all(cha):
        o['idok'] = o['idok'] and s['component'] == '-'.join(
            x[-1] for x in cha)
    return o


def look(s):
    try:
        return observe(s)
    except (TypeError, ValueError, KeyError, AttributeError):
        # no header any more
        return dict(dt=-1, rate=-1, rateXdt=-1, lag0=-1, lag1=-1, npts=-1,
                    cs=-1, ce=-1, start=-1, end=-1, net=[], sta=[], loc=[],
                    cha=[], extra=[], asitem=False, idok=False)


RATES = [1, 2, 4, 5, 10, 20, 25, 50, 100, 200]
# sampling intervals whose rates have many decimals, microseconds
ODD = [3000000, 1700000, 700000, 300000, 60000, 7000, 3000, 1100]


def assignment(rng, cha):
    """(field of the specification, its value, key, python value)"""
    f = rng.choice(['delta', 'rate', 'start_lag', 'start_lag', 'npts',
                    'npts', 'corr_start', 'corr_end', 'network', 'station',
                    'location', 'channel', 'component', 'extra'])
    if f in ('delta', 'rate'):
        r = rng.choice(RATES + [0])
        v = 0 if r == 0 else 1000000 // r
        if f == 'delta':
            if rng.random() < .4:
                v = rng.choice(ODD)
            x = v / 1e6
            return f, v, 'delta', rng.choice([x, np.float64(x), str(x)])
        return f, v, 'sampling_rate', rng.choice(
            [r, float(r), np.float32(r), str(r)])
    if f == 'start_lag':
        v = rng.randint(-40, 40) * 250000
        return f, v, f, rng.choice([v / 1e6, np.float64(v / 1e6)])
    if f == 'npts':
        v = rng.choice([0, 1, 2, rng.randint(0, 500)])
        return f, v, f, rng.choice([v, float(v), np.int64(v)])
    if f in ('corr_start', 'corr_end'):
        v = rng.randint(-5000, 100000)
        return f, v, f, BASE + v
    if f == 'channel':
        v = [rng.choice(['HHZ', 'HHE', 'BHZ', 'HZ']) for _ in (0, 1)]
        return f, [code(x) for x in v], f, '-'.join(v)
    if f == 'component':
        if len(cha) != 2:
            return assignment(rng, cha)
        v = [rng.choice('ZNE12') for _ in (0, 1)]
        return f, [code(x) for x in v], f, '-'.join(v)
    if f == 'extra':
        k = rng.choice(['stla', 'dist', 'note'])
        x = rng.randint(0, 9)
        return f, [k, str(x)], k, x
    v = rng.choice(['A-B', 'AB-C', 'A-A', ''])
    return f, code(v), f, v


def history(ctx, rng, ev):
    d = ctx.dir()
    slots = [CorrTrace(np.zeros(0)) if rng.random() < .5 else CorrStats()
             for _ in range(N)]
    for i, s in enumerate(slots):
        if isinstance(s, CorrTrace):
            h = s.stats
            h.corr_start = h.corr_end = BASE
        else:
            s.corr_start = s.corr_end = BASE

    def st(i):
        x = slots[i]
        return x.stats if isinstance(x, CorrTrace) else x

    # time 0 of the specification is BASE
    ev.append(dict(ev='Reset', n=N))

    def put(e):
        e['obs'] = [look(st(i)) for i in range(N)]
        ev.append(e)
    put(dict(ev='Nothing', ok=True))
    for n in range(rng.randint(5, 25)):
        if any(o['npts'] < 0 for o in ev[-1]['obs']):
            break
        i = rng.randrange(N)
        s = st(i)
        cha = [x for x in s.channel.split('-') if x]
        r = rng.random()
        if r < .5:
            bad = False
            if rng.random() < .15:
                k = rng.choice(['end_lag', 'endtime', 'starttime'])
                f, v, x = k, 0, rng.choice([5., BASE + 3])
            elif rng.random() < .08:
                k = rng.choice(['npts', 'delta', 'start_lag'])
                f, v, x, bad = k, 0, rng.choice(['abc', None]), True
            else:
                f, v, k, x = assignment(rng, cha)
            ok = True
            try:
                with quiet():
                    if rng.random() < .5:
                        s[k] = x
                    else:
                        setattr(s, k, x)
            except (AttributeError, ValueError, TypeError):
                ok = False
            put(dict(ev='Set', s=i + 1, f=f, v=v, ok=ok, bad=bad))
        elif r < .6 and isinstance(slots[i], CorrTrace):
            n = rng.randint(0, 30)
            slots[i].data = np.zeros(n)
            put(dict(ev='Set', s=i + 1, f='npts', v=n, ok=True, bad=False))
        elif r < .75:
            ops, new, seen = [], {}, list(cha)
            for _ in range(rng.randint(1, 6)):
                f, v, k, x = assignment(rng, [])
                new.pop(k, None)
                ops = [o for o in ops if o['k'] != k]
                ops.append(dict(f=f, v=v, k=k))
                new[k] = x
                if rng.random() < .2:
                    k = rng.choice(['end_lag', 'endtime', 'starttime'])
                    if k not in new:
                        ops.append(dict(f=k, v=0, k=k))
                        new[k] = BASE
            with quiet():
                if rng.random() < .5:
                    s.update(new)
                    put(dict(ev='Update', s=i + 1, ops=ops, ok=True))
                else:
                    if 'corr_start' not in new:
                        new['corr_start'] = BASE
                    if 'corr_end' not in new:
                        new['corr_end'] = BASE
                    if isinstance(slots[i], CorrTrace):
                        n = rng.randint(0, 20)
                        slots[i] = CorrTrace(np.zeros(n), _header=new)
                        ops.append(dict(f='npts', v=n, k=''))
                    else:
                        slots[i] = CorrStats(new)
                    put(dict(ev='Make', s=i + 1, ops=ops, ok=True))
        else:
            j = rng.randrange(N)
            way = rng.choice(['copy', 'deepcopy', 'pickle', 'dict', 'hdf5',
                              'trace'])
            with quiet():
                if way == 'copy':
                    c = s.copy()
                elif way == 'deepcopy':
                    c = copy.deepcopy(s)
                elif way == 'pickle':
                    c = pickle.loads(pickle.dumps(s))
                elif way == 'dict':
                    c = CorrStats(dict(s))
                elif way == 'trace':
                    n = int(s.npts)
                    if j == i:
                        continue
                    slots[j] = CorrTrace(np.zeros(n), _header=s)
                    put(dict(ev='Copy', s=i + 1, t=j + 1, ok=True, way=way))
                    continue
                else:
                    if s.sampling_rate == 0:
                        continue
                    f = os.path.join(d, 'h.h5')
                    with h5py.File(f, 'w') as h:
                        ds = h.create_dataset('x', data=np.zeros(2))
                        convert_header_to_hdf5(ds, s)
                        c = CorrStats(dict(read_hdf5_header(ds)))
            if j == i and isinstance(slots[i], CorrTrace):
                continue
            slots[j] = c
            put(dict(ev='Copy', s=i + 1, t=j + 1, ok=True, way=way))
    shutil.rmtree(d)


def describe(b):
    e = b['event']
    return 'Header:%s:%s' % (b['clause'], e.get('f') or e.get('way')
                             or e['ev'])


def run(ctx):
    ctx.model('HeaderMC', 'Header_mc.cfg')
    ev = ctx.pmap(history, ctx.pick(400, 6000))
    ctx.validate('HeaderTrace', ev, 'PairsTrace.cfg', describe, chunk=1000)
    ctx.assumptions = ['times in whole seconds, lags in microseconds']
