"""
C13: averages of velocity change results. Average.tla says which results are
members and what their average is (AverageMC: independent of the order);
random sets of results are averaged by all variants, and smoothed and
shifted, and every outcome is validated.
"""
import warnings

import numpy as np

import seismic.monitor.monitor as sm

from dvdrive import NAN, UNIT, digest, look, make, spec
from vf import quiet


def family(rng, n):
    T, J = rng.randint(1, 5), rng.randint(2, 6)
    dvs = []
    ids = [(rng.choice(['A-A', 'AV-AV']), rng.choice(['S1-S2', 'cave-cave']),
            c) for c in ('HHZ-HHZ', 'HHZ-HHE')]
    for k in range(n):
        t, j, ax, m = T, J, None, 'stretch'
        x = rng.random()
        if k and x < .07:
            t += 1
        elif k and x < .14:
            j += 1
        elif k and x < .2:
            ax = [100 + i for i in range(J)]
        elif x < .22:
            m = 'time'
        i = rng.choice(ids) if rng.random() < .7 else None
        d = make(rng, t, j, k, m, ax, ids=i)
        if ax is None and dvs and len(dvs[0].second_axis) == j:
            d.second_axis = dvs[0].second_axis.copy()
            d.value = d.value * np.nan
            for r in range(t):
                if not np.isnan(d.corr[r]):
                    d.value[r] = d.second_axis[np.nanargmax(d.sim_mat[r])]
        if rng.random() < .12:
            d.stats[rng.choice(['network', 'station', 'channel'])] = 'av'
        elif rng.random() < .08:
            d.stats['network'] = d.stats['station'] = 'geoav'
            for a, b in (('stla', 'evla'), ('stlo', 'evlo'),
                         ('stel', 'evel')):
                d.stats[a] = d.stats[b] = (0., 4.)
        dvs.append(d)
    return dvs


def call(f):
    ok, err, out, w = True, '', None, []
    with quiet(), np.errstate(all='ignore'), \
            warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            out = f()
        except Exception as x:
            ok, err = False, repr(x)
    n = sum(x.category is UserWarning for x in w)
    return ok, err, out, n


def averages(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(8):
        dvs = family(rng, rng.randint(1, 6))
        before = [digest(d) for d in dvs]
        ins = [spec(d) for d in dvs]
        scatter = rng.random() < .6
        lat, lon = (rng.randint(0, 1), rng.randint(2, 4)), (0, 4)
        if rng.random() < .5:
            lon = (rng.randint(0, 2), 4)
        el = rng.choice([(-1000000, 1000000), (0, 50)])
        for what, f in (
            ('Average', lambda: sm.average_components(dvs, scatter)),
            ('MemSave', lambda: sm.average_components_mem_save(
                iter(dvs) if rng.random() < .5 else dvs, scatter)),
            ('Box', lambda: sm.average_dvs_by_coords(
                dvs, lat, lon, el, scatter))):
            ok, err, out, n = call(f)
            skipped = 0
            if what == 'Box':
                # averages are left out with a warning, wherever they are
                skipped = sum(
                    'av' in (d.stats.network, d.stats.station,
                             d.stats.channel)
                    or d.stats.network == 'geoav' for d in dvs)
            ev.append(dict(
                ev=what, ok=ok, err=err, scatter=scatter, warned=n,
                skipped=skipped, geo=what == 'Box', lat=lat, lon=lon, el=el,
                out=look(out, 100000) if ok else [],
                unchanged=[digest(d) for d in dvs] == before, **{'in': ins}))
    for _ in range(6):
        smooth(rng, ev)
        shift(rng, ev)


def smooth(rng, ev):
    d = make(rng, rng.randint(1, 8), rng.randint(2, 5), 0)
    ins = [spec(d)]
    win = rng.randint(1, 9)
    thres = rng.randint(-30, 20)
    has = rng.random() < .4
    # thresholds between two hundredths: no rounding at the border
    ok, err, out, n = call(lambda: d.smooth_sim_mat(
        win, (thres - .5) / 100 if has else None))
    ev.append(dict(
        ev='Smooth', ok=ok, err=err, h=win // 2, thres=thres, hasthres=has,
        out=look(d, 100000) if ok else [], **{'in': ins}))


def shift(rng, ev):
    """Two results of a constant offset of k columns"""
    T, J = rng.randint(2, 6), rng.randint(3, 6)
    a = make(rng, T, J, 0, nans=False)
    k = rng.randint(-2, 2)
    b = make(rng, T, J, 1, nans=False, axis=[round(x / UNIT)
                                             for x in a.second_axis])
    # all similar in time; some without data
    b.corr = np.full(T, .5)
    a.corr = np.full(T, .5)
    a.value = np.full(T, 3 * UNIT)
    b.value = np.full(T, (3 + k) * UNIT)
    for d in (a, b):
        for t in rng.sample(range(T), rng.randint(0, T // 2)):
            d.sim_mat[t], d.corr[t], d.value[t] = np.nan, np.nan, np.nan
        d.avail = ~np.isnan(d.corr)
    if not (a.avail & b.avail).any():
        return
    ins, ref = [spec(b)], digest(a)
    ok, err, out, n = call(lambda: sm.correct_dv_shift(
        b, a, rng.choice(['mean', 'median']), rng.randint(0, 3)))
    ev.append(dict(
        ev='Shift', ok=ok, err=err, k=-k, refsame=digest(a) == ref,
        out=look(b, 100000) if ok else [], **{'in': ins}))


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('AverageMC', ctx.pick('Average_mc.cfg', 'Average_big.cfg'))
    ev = ctx.pmap(averages, ctx.pick(64, 1500))
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('AverageTrace', ev, 'PairsTrace.cfg', describe, chunk=700)
    ctx.assumptions = [
        'results whose similarities have the same shape and axis belong to '
        'the same times']
