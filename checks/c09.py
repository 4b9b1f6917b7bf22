"""
C09: selecting and stacking correlations. Stacks.tla holds the documented
rules; StacksMC shows that the stacks of any collection partition it. Random
collections in random order are given to the real methods and every answer
is validated.
"""
import copy

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrStream, CorrTrace, stack_st

import dbdrive as dd
from vf import code, quiet

BASE = dd.BASE
NAN = 99999


def tenths(t):
    return int(round((t - BASE) * 10))


IDS = [('A-A', 'S1-S2', 'HHZ-HHZ'), ('A-A', 'S1-S2', 'HHZ-HHE'),
       ('A-A', 'S1-S22', 'HHZ-HHZ'), ('A-AB', 'S1-S2', 'HHZ-HHZ'),
       ('A-B', 'S1-S2', 'HHZ-HHZ')]
LOCS = ['00-00', '00-10', '-', '0-00']


def sid(s):
    return [code(s.network), code(s.station), code(s.channel)]


def collection(rng, n, nan=True):
    """Correlations with tokens, in random order."""
    ids = rng.sample(IDS, rng.randint(1, min(3, len(IDS))))
    locs = rng.sample(LOCS, rng.choice([1, 2, 2]))
    npts = rng.randint(1, 5)
    start = rng.choice([0, 3000, 846000, 860000, 863000]) + rng.choice(
        [0, 0, 0, 1, 7])
    long = rng.choice([1, 1, 3])
    out = []
    for k in range(n):
        cs = start + 1000 * rng.randint(0, rng.choice([4, 12, 30]))
        ce = cs + 1000 * rng.randint(1, long)
        v = [rng.randint(-5, 5) for _ in range(npts)]
        v[0] = v[0] or 2
        if nan and rng.random() < .15:
            v[rng.randrange(npts)] = NAN
        if nan and rng.random() < .07:
            v = [NAN] * npts
        out.append((k, rng.choice(ids), rng.choice(locs), cs, ce, v))
    return out


def trace(c):
    k, i, loc, cs, ce, v = c
    h = CorrStats(dict(
        network=i[0], station=i[1], channel=i[2], location=loc,
        corr_start=BASE + cs / 10, corr_end=BASE + ce / 10,
        sampling_rate=4., start_lag=-1.5))
    h['stla'] = float(k)
    return CorrTrace(np.array([np.nan if x == NAN else x for x in v], float),
                     _header=h)


def tok(tr):
    return int(tr.stats.stla)


def spec(c):
    k, i, loc, cs, ce, v = c
    return dict(tok=k, id=[code(x) for x in i], loc=code(loc), cs=cs, ce=ce,
                v=v)


def digest(st):
    return sorted((tok(t), t.data.tobytes(), sorted(
        (k, str(v)) for k, v in t.stats.items())) for t in st)


class Case:
    def __init__(self, rng, n, **k):
        self.c = collection(rng, n, **k)
        self.st = CorrStream([trace(c) for c in self.c])
        rng.shuffle(self.st.traces)
        self.d = digest(self.st)

    def event(self, ev, **k):
        return dict(ev=ev, unchanged=digest(self.st) == self.d,
                    **{'in': [spec(c) for c in self.c]}, **k)


def tod(rng, t):
    t %= 864000
    return (t // 36000, t % 36000 // 600,
            rng.choice([int, float])(t % 600 // 10) if t % 10 == 0
            else t % 600 / 10)


def cases(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(6):
        c = Case(rng, rng.randint(1, 12))
        border = sorted({x for y in c.c for x in y[3:5]})
        pick = (lambda: rng.choice(border) + rng.choice(
            [0, 0, 0, -1, 1, 500, -500]))
        for _ in range(3):
            s, e = sorted([pick(), pick()])
            e += s == e
            part = rng.random() < .5
            with quiet():
                r = c.st.select_corr_time(BASE + s / 10, BASE + e / 10, part)
            ev.append(c.event('Corr', s=s, e=e, partial=part,
                              res=[tok(t) for t in r]))
            a, b = sorted([pick() % 864000, pick() % 864000])
            if rng.random() < .3:
                a, b = rng.choice([0, a]), rng.choice([863990, b])
            x = rng.random() < .4
            with quiet():
                r = c.st.select_time(tod(rng, a), tod(rng, b), x)
            ev.append(c.event('Tod', s=a, e=b, exclude=x,
                              res=[tok(t) for t in r]))
            u = [pick() for _ in range(rng.randint(1, 4))]
            with quiet():
                r = c.st.pop_at_utcs(np.array([BASE + x / 10 for x in u]))
            ev.append(c.event('Pop', utcs=u, res=[tok(t) for t in r]))
        # windows
        hass, hase = rng.random() < .4, rng.random() < .3
        s = pick() if hass else 0
        e = pick() if hase else 0
        ln = rng.choice([1000, 2000, 3000, 3000, 4000, 10000])
        step = rng.choice([1000, 1500, 3000, ln, ln, 0, -1000])
        part = rng.random() < .6
        wins, ok, err = [], True, ''
        with quiet():
            try:
                for w in c.st.slide(
                        ln / 10, step / 10, part,
                        BASE + s / 10 if hass else None,
                        BASE + e / 10 if hase else None):
                    wins.append([tok(t) for t in w])
            except ValueError as x:
                ok, err = False, str(x)
        ev.append(c.event('Slide', len=ln, step=step, partial=part, hass=hass,
                          hase=hase, s=s, e=e, wins=wins, ok=ok, err=err))
    for _ in range(12):
        stack(rng, ev)
    # identical ones, and ones that differ in the data only
    c = Case(rng, 5)
    st = c.st.copy()
    for t in rng.choices(st.traces, k=4):
        st.append(t.copy())
    x = c.st[0].copy()
    if not np.isnan(x.data).any():
        x.data[-1] += 1
        x.stats.stla = 77.
        st.append(x)
        c.c.append((77,) + [y for y in c.c if y[0] == tok(c.st[0])][0][1:])
    rng.shuffle(st.traces)
    # NaN is not equal to itself
    st.traces = [t for t in st if not np.isnan(t.data).any()]
    c.c = [y for y in c.c if NAN not in y[5]]
    n = digest(c.st)
    st.remove_duplicates()
    e = c.event('Dup', res=[tok(t) for t in st])
    e['unchanged'] = n == c.d
    ev.append(e)


def stack(rng, ev):
    c = Case(rng, rng.randint(1, 14))
    border = sorted({x for y in c.c for x in y[3:5]})
    hass, hase = rng.random() < .3, rng.random() < .3
    s = rng.choice(border) + rng.choice([0, 0, 500, -1000])
    e = rng.choice(border) + rng.choice([0, 0, 500, 1000])
    daily = rng.random() < .25
    ln = 864000 if daily else rng.choice([0, 3000, 3000, 4000, 10000])
    weight = rng.choice(['by_length', 'mean', 'average'])
    regard = rng.random() < .5
    single = rng.random() < .25
    norm = True
    if ln == 0:
        hass = hase = False
    ok, err, st = True, '', []
    with quiet(), np.errstate(all='ignore'):
        try:
            if single:
                daily, ln, hass, hase = False, 0, False, False
                # one id
                c.c = [y[:1] + c.c[0][1:2] + c.c[0][2:3] + y[3:]
                       for y in c.c]
                c.st = CorrStream([trace(x) for x in c.c])
                rng.shuffle(c.st.traces)
                c.d = digest(c.st)
                norm = rng.random() < .3
                st = [stack_st(copy.copy(c.st), weight, norm)]
            else:
                st = c.st.stack(
                    weight, BASE + s / 10 if hass else None,
                    BASE + e / 10 if hase else None,
                    'daily' if daily else ln / 10, regard)
        except Exception as x:
            ok, err = False, repr(x)
    out = []
    for t in st:
        h = t.stats
        v = np.full(len(t.data), NAN)
        f = np.isfinite(t.data)
        v[f] = np.round(t.data[f] * 10000)
        out.append(dict(
            id=sid(h), loc=code(h.location), cs=tenths(h.corr_start),
            ce=tenths(h.corr_end), v=v.tolist(),
            lags=bool(h.start_lag == -1.5 and h.npts == len(t.data)
                      and h.sampling_rate == 4.)))
    ev.append(c.event(
        'Stack', len=ln, daily=daily, hass=hass, hase=hase, s=s, e=e,
        weight=weight, regard=regard, single=single, norm=norm, ok=ok,
        err=err, stacks=out))


def describe(b):
    e = b['event']
    return 'Stacks:%s:%s' % (b['clause'], e.get('err', ''))


def run(ctx):
    ctx.model('StacksMC', 'Stacks_mc.cfg')
    ev = ctx.pmap(cases, ctx.pick(60, 1200))
    ctx.cov['calls'] = len(ev)
    ctx.validate('StacksTrace', ev, 'PairsTrace.cfg', describe, chunk=600)
    ctx.assumptions = [
        'correlations of one id have the same number of samples',
        'a correlation that ends at midnight ends at 0 o\'clock']
