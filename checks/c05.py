"""
C05: exactly the requested pairs are correlated, each once. The functions
that choose pairs are called on random and on all small sets of channels;
whole runs are recorded for all methods and requests. Corr.tla (PairsOf)
decides.
"""
import itertools
import shutil

import numpy as np
from obspy import Stream, Trace

import seismic.correlate.correlate as sc

import corrdrive as cd
import projects as pj
from vf import code, quiet

METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']
CODES = dict(
    n=['A', 'AB', 'B', 'Z', '1'], s=['S1', 'S10', 'S', 'A', '9', 'Z'],
    c=['HHZ', 'HHN', 'HHE', 'BHZ', 'BHE', 'HH1'])


def cid(x):
    return dict(n=code(x[0]), s=code(x[1]), c=code(x[2]))


def request(rng, ids):
    """A requested combination in one of its many ways."""
    a, b = rng.choice(ids), rng.choice(ids)
    if rng.random() < .1:
        # something that does not exist
        b = ('QQ', 'NO', 'HHZ')
    r = rng.random()
    n = [a[0], b[0]]
    s = [a[1], b[1]]
    c = [a[2], b[2]]
    if r < .15:
        s[rng.randint(0, 1)] = '*'
    elif r < .25:
        k = rng.randint(0, 1)
        n[k] = s[k] = '*'
    r = rng.random()
    if r < .4:
        return '%s-%s.%s-%s' % (*n, *s)
    if r < .6:
        c[rng.randint(0, 1)] = '*'
    return '%s-%s.%s-%s.%s-%s' % (*n, *s, *c)


def base(ids, method, xc):
    return dict(
        method=method, hasx=xc is not None,
        xcombis=[cd.Project._xc(x) for x in xc or []],
        chans=[dict(id=cid(i)) for i in ids])


def combis(rng, ev, ids, method, xc, starts=None, stored=None):
    starts = starts or {i: 0 for i in ids}
    st = Stream([Trace(np.zeros(4), dict(
        network=n, station=s, channel=c, location=rng.choice(['', '00']),
        starttime=cd.BASE + starts[(n, s, c)])) for n, s, c in ids])
    rng.shuffle(st.traces)
    ex, sto = {}, []
    for a, b, t in stored or []:
        if not a <= b:
            a, b = b, a
        d = ex.setdefault('.'.join(a[:2]), {}).setdefault(
            '.'.join(b[:2]), {}).setdefault('%s-%s' % (a[2], b[2]), [])
        d.append((cd.BASE + t).format_fissures())
        sto.append(dict(a=cid(a), b=cid(b), st=t))
    with quiet():
        res = sc.calc_cross_combis(st, ex, method, xc)
    now = [(tr.stats.network, tr.stats.station, tr.stats.channel)
           for tr in st]
    ev.append(dict(
        ev='Combis', start=[starts[i] for i in now], stored=sto,
        res=[[int(i) + 1, int(j) + 1] for i, j in res],
        **base(now, method, xc)))


def stations(rng, ev, ids, method, xc):
    sta = sorted({i[:2] for i in ids})
    rng.shuffle(sta)
    sub = [i for i in ids]
    with quiet():
        nc, scb = sc.compute_network_station_combinations(
            [x[0] for x in sta], [x[1] for x in sta], method, xc)
    res = []
    for n, s in zip(nc, scb):
        n, s = n.split('-'), s.split('-')
        res.append([dict(n=code(n[0]), s=code(s[0])),
                    dict(n=code(n[1]), s=code(s[1]))])
    # which channels a station has is not known here
    if xc is not None:
        xc = ['.'.join(x.split('.')[:2]) for x in xc]
    if method == 'betweenComponents':
        sub = [i[:2] + (c,) for i in sub for c in ('HHZ', 'HHE')]
    ev.append(dict(ev='Stations', res=res, **base(sub, method, xc)))


def functions(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(60):
        ids = list({tuple(rng.choice(CODES[k]) for k in 'nsc')
                    for _ in range(rng.randint(1, 7))})
        ids.sort()
        rng.shuffle(ids)
        method = rng.choice(METHODS[:1] * 3 + METHODS)
        xc = None
        if method == 'betweenStations' and rng.random() < .6:
            xc = [request(rng, ids) for _ in range(rng.randint(0, 3))]
        starts = {i: rng.choice([0, 0, 0, 100]) for i in ids}
        stored = [(rng.choice(ids), rng.choice(ids), rng.choice([0, 0, 100]))
                  for _ in range(rng.randint(0, 6))] if rng.random() < .7 \
            else []
        combis(rng, ev, ids, method, xc, starts, stored)
        stations(rng, ev, ids, method, xc)
        for _ in range(3):
            a, b = rng.choice(ids), rng.choice(ids)
            x = [request(rng, ids) for _ in range(rng.randint(0, 3))]
            r = sc.is_in_xcombis(
                '%s.%s.00.%s' % a, '%s.%s..%s' % b, x)
            ev.append(dict(ev='InX', a=cid(a), b=cid(b), res=bool(r),
                           **base(ids, 'betweenStations', x)))
        a, b = rng.choice(ids), rng.choice(ids)
        n, s, c = sc.sort_comb_name_alphabetically(
            a[0], a[1], b[0], b[1], a[2], b[2])
        ev.append(dict(ev='Canon', a=cid(a), b=cid(b), res=[
            cid((n[k], s[k], c[k])) for k in (0, 1)]))


SMALL = [('A', 'S', 'HHZ'), ('A', 'S', 'HHE'), ('A', 'S1', 'HHZ'),
         ('A', 'S1', 'BHZ'), ('AB', 'S', 'HHZ'), ('B', 'A', 'HHE')]


def exhaustive(ctx, rng, ev):
    """All subsets of a small universe, all methods, one stored pair."""
    for k in range(1, len(SMALL) + 1):
        for ids in itertools.combinations(SMALL, k):
            ev.append(dict(ev='Reset'))
            for m in METHODS:
                combis(rng, ev, ids, m, None)
                stations(rng, ev, ids, m, None)
                for a, b in itertools.combinations_with_replacement(ids, 2):
                    combis(rng, ev, ids, m, None, None, [(a, b, 0)])
            for a, b in itertools.permutations(ids, 2):
                for x in ('%s-%s.%s-%s' % (a[0], b[0], a[1], b[1]),
                          '%s-%s.%s-%s.%s-%s' % (
                              a[0], b[0], a[1], b[1], a[2], b[2])):
                    combis(rng, ev, ids, 'betweenStations', [x])
                    stations(rng, ev, ids, 'betweenStations', [x])


def runs(ctx, rng, ev):
    m = rng.choice(METHODS[:1] * 4 + METHODS)
    cfg = pj.config(rng, method=m)
    end = cfg['start'] + cfg['inc']
    chans = pj.network(rng, cfg, end, rng.choice([2, 3, 4]),
                       (1, 3), holes=.15)
    ids = [(c.n, c.s, c.c) for c in chans]
    xc = None
    if m == 'betweenStations' and rng.random() < .8:
        xc = [request(rng, ids) for _ in range(rng.randint(1, 3))]
        # at least one names a pair that exists
        a = rng.choice(ids)
        b = rng.choice([i for i in ids if i[:2] != a[:2]])
        xc.append('%s-%s.%s-%s' % (a[0], b[0], a[1], b[1]))
        rng.shuffle(xc)
    p = cd.Project(ctx.dir(), cfg, ev)
    p.store(chans)
    for _ in range(rng.choice([1, 1, 2])):
        p.run(end, ranks=rng.choice([1, 1, 2]), xcombis=xc,
              separate=rng.random() < .3)
        if xc is None:
            continue
        # ask for more
        xc = xc + [request(rng, ids)]
    shutil.rmtree(p.root)


def describe(b):
    e = b['event']
    return 'Corr:%s:%s:%s' % (
        b['clause'], e.get('method'), e.get('err', ''))


def run(ctx):
    ev = ctx.pmap([(functions, ctx.pick(12, 120)), (exhaustive, 1)], None)
    ctx.cov['calls'] = len(ev)
    ctx.validate('PairsTrace', ev, 'PairsTrace.cfg', describe, chunk=1500)
    ev = ctx.pmap(runs, ctx.pick(48, 500))
    ctx.cov['runs'] = sum(e['ev'] == 'Run' for e in ev)
    ctx.validate('CorrTrace', ev, 'CorrTrace.cfg', describe, chunk=12)
    ctx.assumptions = [
        'one location code per channel',
        'requested combinations are used with betweenStations']
