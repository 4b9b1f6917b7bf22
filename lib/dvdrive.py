"""Velocity change results as Average.tla sees them."""
import os

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.monitor.dv import DV

import dbdrive as dd
from vf import code

BASE = dd.BASE
NAN = 999999999
NETS = ['A-A', 'A-B', 'AV-AV']
STAS = ['S1-S2', 'S1-S1', 'S1-S22', 'cave-cave']
CHAS = ['HHZ-HHZ', 'HHZ-HHE', 'BHZ-BHZ']
UNIT = .0005


def num(x, scale):
    x = np.asarray(x, float)
    v = np.full(x.shape, NAN, dtype=np.int64)
    f = np.isfinite(x)
    v[f] = np.round(x[f] * scale)
    return v.tolist()


def make(rng, T, J, tok, method='stretch', axis=None, nans=True, ids=None):
    """A result with similarities in hundredths (all data are exact)"""
    if axis is None:
        # in units of 0.0005; not always symmetric
        lo = rng.choice([-J // 2, -J, 0])
        axis = [lo + j for j in range(J)]
    sim = [[rng.randint(-30, 30) for _ in range(J)] for _ in range(T)]
    if rng.random() < .3:
        # ties and negative rows
        sim = [[-abs(x) % 7 - 10 for x in r] for r in sim]
    for r in sim:
        if nans and rng.random() < .25:
            r[:] = [NAN] * J
        elif nans and rng.random() < .25:
            for j in rng.sample(range(J), rng.randint(1, J)):
                r[j] = NAN
    corr, value = [], []
    for r in sim:
        x = [y for y in r if y != NAN]
        corr.append(max(x) if x else NAN)
        value.append(axis[r.index(max(x))] if x else NAN)
    net, sta, cha = ids or (
        rng.choice(NETS), rng.choice(STAS), rng.choice(CHAS))
    s = CorrStats(dict(network=net, station=sta, channel=cha))
    s['corr_start'] = [BASE + 3600 * t for t in range(T)]
    s['corr_end'] = [BASE + 3600 * (t + 1) for t in range(T)]
    s['stla'], s['evla'] = float(rng.randint(0, 4)), float(rng.randint(0, 4))
    s['stlo'], s['evlo'] = float(rng.randint(0, 4)), float(rng.randint(0, 4))
    s['stel'] = float(rng.choice([0, 100]))
    s['evel'] = float(rng.choice([0, 100]))
    f = (lambda a, sc: np.array(
        [np.nan if x == NAN else x / sc for x in a]))
    return DV(
        f(corr, 100), f([NAN if v == NAN else v * UNIT for v in value], 1),
        'stretch', np.array([f(r, 100) for r in sim]),
        np.array(axis) * UNIT, method, s,
        dv_processing=dict(freq_min=.1, freq_max=1., tw_start=2., tw_len=9.,
                           sides='both', aligned=False))


def look(d, scale):
    s = d.stats
    z = (lambda x: [] if x is None else x)
    pair = (lambda k: list(s.get(k)) if isinstance(
        s.get(k), (tuple, list)) else [])
    pi = (lambda k: [int(x) for x in pair(k)])
    return dict(
        net=code(s.network), sta=code(s.station), cha=code(s.channel),
        method=str(d.method), axis=num(d.second_axis / UNIT, 1),
        sim=num(d.sim_mat, scale), corr=num(d.corr, scale),
        value=num(d.value / UNIT, 1),
        nstat=num(z(d.n_stat), 1),
        corrs=num(z(d.corrs), 100),
        stretches=num(np.asarray(z(d.stretches)) / UNIT, 1),
        avail=[bool(x) for x in np.asarray(d.avail)],
        times=[int(t - BASE) for t in s.corr_start],
        lat=pi('stla') if pi('stla') == pi('evla') else [],
        lon=pi('stlo') if pi('stlo') == pi('evlo') else [],
        el=pi('stel') if pi('stel') == pi('evel') else [],
        uniform=bool(np.shape(d.value) == np.shape(d.corr)
                     == np.shape(d.sim_mat)[:1]))


def spec(d):
    """An input as the specification sees it (hundredths)"""
    r = look(d, 100)
    s = d.stats
    for k in ('stla', 'stlo', 'stel', 'evla', 'evlo', 'evel'):
        v = s.get(k)
        r[k] = int(v) if isinstance(v, (int, float)) else 0
    return r


def digest(d):
    return repr((
        d.corr.tobytes(), d.value.tobytes(), d.sim_mat.tobytes(),
        d.second_axis.tobytes(), str(d.method), d.value_type,
        np.asarray(d.avail).tobytes(),
        [None if x is None else np.asarray(x).tobytes()
         for x in (d.corrs, d.stretches, d.n_stat)],
        sorted((k, str(v)) for k, v in d.stats.items()),
        sorted((k, str(v)) for k, v in d.dv_processing.items())))


def damage(rng, path):
    """What an interrupted write or a foreign program leaves behind."""
    kind = rng.choice(['nonsense', 'empty', 'half', 'lacks', 'lacks', 'text'])
    if kind == 'lacks':
        try:
            with np.load(path) as f:
                d = dict(f)
        except Exception:
            # already damaged
            return kind
        d.pop(rng.choice(['corr', 'value', 'sim_mat', 'second_axis']), None)
        np.savez_compressed(path, **d)
    elif kind == 'half':
        with open(path, 'r+b') as f:
            f.truncate(os.path.getsize(path) // 2)
    else:
        with open(path, 'wb') as f:
            f.write(dict(nonsense=b'nonsense', empty=b'',
                         text=b'PK but no archive, only text'*5)[kind])
    return kind
