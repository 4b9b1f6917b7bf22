"""
C06: canonical pair order and mirrored lag axis. Mirror.tla says what is
stored of a computed correlation; MirrorMC shows that it does not depend on
the order in which a pair is computed. Traces built by the code, stored and
fetched ones, the names of all stages, and runs of the correlator with the
station codes exchanged are validated against it.
"""
import os
import shutil

import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.core import Stats
from obspy.core.inventory import Inventory, Network, Station

import seismic.correlate.correlate as sc
from seismic.correlate.stream import CorrTrace
from seismic.db.corr_hdf5 import CorrelationDataBase

import corrdrive as cd
import dbdrive as dd
from vf import code, quiet

CODES = dict(
    n=['A', 'AB', 'B', 'Z', '1'],
    s=['S1', 'S10', 'S', 'A', '9', 'Z', 'SA'],
    c=['HHZ', 'HHN', 'HHE', 'BHZ', 'BHE', 'HH1', 'HZ', 'H'])
BASE = dd.BASE


def ident(x):
    return dict(n=code(x[0]), s=code(x[1]), c=code(x[2]))


def pick(rng):
    return tuple(rng.choice(CODES[k]) for k in 'nsc')


def pairs(rng):
    """Two channels; often they share some of the codes."""
    a, b = pick(rng), list(pick(rng))
    for k in range(3):
        if rng.random() < .35:
            b[k] = a[k]
    return a, tuple(b)


def split(stats):
    f = [stats[k].split('-') for k in ('network', 'station', 'channel')]
    if any(len(x) != 2 for x in f):
        return [ident(('?', '', ''))]*2
    return [ident([x[k] for x in f]) for k in (0, 1)]


def us(x):
    return int(round(float(x) * 1e6))


def header(x, loc, sr, t, npts, pos, mode):
    h = Stats()
    h.network, h.station, h.channel = x
    h.location = loc
    h.sampling_rate = sr
    h.npts = npts
    h.starttime = BASE + t
    p = dict(stla=float(pos[0]), stlo=float(pos[1]), stel=float(pos[2]))
    if mode == 'stats':
        h.update(p)
    elif mode == 'sac':
        h['sac'] = p
    return h


def built(rng, ev, a, b):
    sr = rng.choice([1, 2, 4, 10, 25, 100])
    dt = 1000000 // sr
    n = rng.randint(1, 9)
    k0 = rng.choice([-(n - 1) // 2, rng.randint(-12, 12),
                     rng.randint(-400, 400)])
    v = [rng.randint(-99, 99) for _ in range(n)]
    mode = rng.choice(['stats', 'inv', 'sac', 'none'])
    lo = rng.randint(-170, 170)
    # the position belongs to the station
    px = (rng.randint(-60, 60), lo, rng.randint(0, 3000))
    py = px if a[:2] == b[:2] else (
        rng.randint(-60, 60), lo, rng.randint(0, 3000))
    inv = None
    if mode == 'inv':
        inv = Inventory(networks=[])
        st = [(a, px)] if a[:2] == b[:2] else [(a, px), (b, py)]
        # other stations too
        st += [((a[0] + 'X', a[1], ''), (1, 2, 3)),
               ((a[0], a[1] + 'X', ''), (1, 2, 4))]
        rng.shuffle(st)
        for x, p in st:
            inv.networks.append(Network(x[0], [
                Station(x[1], p[0], p[1], p[2])]))
    la, lb = rng.choice(['', '00']), rng.choice(['', '00', '10'])
    N = sr * 100
    ta = rng.randint(0, 50)
    tb = rng.choice([ta, rng.randint(0, 50)])
    na, nb = N + 1, rng.choice([N + 1, N + 1 + sr * rng.randint(-20, 20)])
    for swap in (False, True):
        # the same measurement computed the other way round
        x, y, lx, ly, p, q, tx, ty, nx, ny = (
            (a, b, la, lb, px, py, ta, tb, na, nb) if not swap else
            (b, a, lb, la, py, px, tb, ta, nb, na))
        k, w = (k0, v) if not swap else (-(k0 + n - 1), v[::-1])
        hx = header(x, lx, sr, tx, nx, p, mode)
        hy = header(y, ly, sr, ty, ny, q, mode)
        data = np.array(w, dtype=rng.choice([np.float32, np.float64]))
        with quiet():
            tr = CorrTrace(data, header1=hx, header2=hy, inv=inv,
                           start_lag=k / sr, end_lag=(k + n - 1) / sr)
        s = tr.stats
        none = mode == 'none'
        pos = [] if none or 'evla' not in s else [
            [int(round(s[f])) for f in ('stla', 'stlo', 'stel')],
            [int(round(s[f])) for f in ('evla', 'evlo', 'evel')]]
        ev.append(dict(
            ev='Built', x=ident(x), y=ident(y), lx=code(lx), ly=code(ly),
            dt=dt, k0=k, v=w, px=[] if none else p, py=[] if none else q,
            tx=[tx, tx + (nx - 1) // sr], ty=[ty, ty + (ny - 1) // sr],
            g=dict(id=split(s), loc=code(s.location),
                   v=[int(round(z)) for z in tr.data], npts=int(s.npts),
                   lag0=us(s.start_lag), lag1=us(s.end_lag),
                   times=[us(z) for z in tr.times()],
                   start=int(round(s.corr_start - BASE)),
                   end=int(round(s.corr_end - BASE)), p=pos,
                   az=int(round(s.get('az', 999))) % 360,
                   baz=int(round(s.get('baz', 999))) % 360,
                   dist=int(round(s.get('dist', -1) * 1000)))))
    return tr


def stages(rng, ev, a, b):
    names = []
    n, s, c = sc.sort_comb_name_alphabetically(
        a[0], a[1], b[0], b[1], a[2], b[2])
    names.append(('sort', [ident((n[k], s[k], c[k])) for k in (0, 1)]))
    st = Stream([Trace(np.zeros(3), dict(
        network=x[0], station=x[1], channel=x[2])) for x in {a, b}])
    if a[:2] != b[:2]:
        with quiet():
            st.sort(keys=['network', 'station', 'channel'])
            for i, j in sc.calc_cross_combis(st, {}, 'betweenStations'):
                t = CorrTrace(np.zeros(3), st[i].stats, st[j].stats,
                              start_lag=-1, end_lag=1)
                names.append(('combis', split(t.stats)))
            nc, sb = sc.compute_network_station_combinations(
                [a[0], b[0]], [a[1], b[1]])
        for x, y in zip(nc, sb):
            x, y = x.split('-'), y.split('-')
            # the channels in the order of the stations
            z = (a[2], b[2]) if (x[0], y[0]) == a[:2] else (b[2], a[2])
            names.append(('stations', [
                ident((x[k], y[k], z[k])) for k in (0, 1)]))
    ev.append(dict(ev='Stages', x=ident(a), y=ident(b), names=[
        dict(who=w, id=i) for w, i in names]))


def functions(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    d = ctx.dir()
    for i in range(40):
        a, b = pairs(rng)
        built(rng, ev, a, b)
        stages(rng, ev, a, b)
        if i % 4 == 0:
            fetch(rng, ev, a, b, os.path.join(d, '%d.h5' % i))
    shutil.rmtree(d)


def fetch(rng, ev, a, b, path):
    n = rng.randint(2, 7)
    k0 = rng.randint(-9, 9)
    v = [rng.randint(-99, 99) for _ in range(n)]
    with quiet():
        tr = CorrTrace(
            np.array(v, float), header(a, '', 4, 0, 401, (1, 2, 3), 'stats'),
            header(b, '', 4, 0, 401, (1, 2, 3), 'stats'),
            start_lag=k0 / 4, end_lag=(k0 + n - 1) / 4)
        with CorrelationDataBase(path, dd.base_co(), 'a') as db:
            db.add_correlation(tr, 'subdivision')
        got = []
        with CorrelationDataBase(path, mode='r') as db:
            for x, y in ((a, b), (b, a)):
                for t in (None, BASE):
                    try:
                        r = db.get_data(x[0] + '-' + y[0], x[1] + '-' + y[1],
                                        x[2] + '-' + y[2], 'subdivision', t)
                    except KeyError:
                        r = []
                    r = list(r) if not isinstance(r, Trace) else [r]
                    g = dict(n=len(r), v=[], lag0=0, id=[])
                    if len(r) == 1:
                        g.update(
                            v=[int(round(z)) for z in r[0].data],
                            lag0=us(r[0].stats.start_lag),
                            id=split(r[0].stats))
                    got.append(g)
    ev.append(dict(ev='Fetch', x=ident(a), y=ident(b), k0=k0, v=v,
                   dt=250000, got=got))


# -- runs ------------------------------------------------------------------

class Smooth:
    """A channel that records band-limited pulses, at any sample times."""

    def __init__(self, nsc, pulses, delay, phase, sr, a, b):
        self.n, self.s, self.c = nsc
        self.loc = '00'
        self.pulses, self.delay, self.phase = pulses, delay, phase
        self.sr, self.a, self.b = sr, a, b

    def stream(self):
        t = self.a + self.phase + np.arange(
            int((self.b - self.a) * self.sr)) / self.sr
        x = np.zeros(len(t))
        for T, amp in self.pulses:
            x += amp * np.exp(-.5 * ((t - T - self.delay) * self.sr / 2.2)**2)
        return Stream([Trace(x, dict(
            network=self.n, station=self.s, channel=self.c,
            location=self.loc, sampling_rate=float(self.sr),
            starttime=cd.BASE + self.a + self.phase))])

    def event(self):
        return dict(id=ident((self.n, self.s, self.c)))


class SwapProject(cd.Project):
    def store(self, channels):
        from seismic.trace_data.waveform import SDS_FMTSTR
        self.channels = channels
        ms = os.path.join(self.root, 'mseed')
        if os.path.isdir(ms):
            shutil.rmtree(ms)
        for ch in channels:
            tr = ch.stream()[0]
            day = UTCDateTime(cd.BASE.year, cd.BASE.month, cd.BASE.day)
            while day <= tr.stats.endtime:
                p = tr.slice(day, day + 86400 - .5 / ch.sr,
                             nearest_sample=False)
                if p.stats.npts:
                    f = os.path.join(ms, SDS_FMTSTR.format(
                        network=ch.n, station=ch.s, location=ch.loc,
                        channel=ch.c, year=day.year, doy=day.julday,
                        sds_type='D'))
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    p.write(f, format='MSEED', encoding='FLOAT64')
                day += 86400

    def options(self, *a, **k):
        o = super().options(*a, **k)
        o['co']['corr_args'].update(self.extra)
        o['co']['sampling_rate'] = self.cfg['sr']
        return o

    def stored(self):
        import h5py
        out = []
        for fn in sorted(os.listdir(self.corr)):
            with h5py.File(os.path.join(self.corr, fn), 'r') as f:
                def visit(name, obj):
                    if not isinstance(obj, h5py.Dataset) or name == 'co':
                        return
                    p = name.split('/')
                    if p[0] != 'subdivision':
                        return
                    at = dict(obj.attrs)
                    d = np.array(obj, float)
                    i = int(np.argmax(d))
                    sr = float(at['sampling_rate'])
                    x = 0.
                    if 0 < i < len(d) - 1:
                        # the correlation of Gaussians is a Gaussian
                        y = np.log(np.maximum(d[i-1:i+2], 1e-9 * d[i]))
                        x = .5 * (y[0] - y[2]) / (y[0] - 2*y[1] + y[2])
                    ids = [q.split('-') for q in p[1:4]]
                    out.append(dict(
                        id=[ident([q[k] for q in ids]) for k in (0, 1)],
                        st=p[4], lag0=us(at['start_lag']),
                        lag1=us(at['end_lag']), n=int(at['npts']),
                        dt=us(1 / sr),
                        peak=us(float(at['start_lag']) + (i + x) / sr),
                        v=cd.ints(d)))
                f.visititems(visit)
        return sorted(out, key=lambda r: r['st'])


def runs(ctx, rng, ev):
    a, b = pairs(rng)
    a, b = a[:2] + ('HHZ',), b[:2] + (rng.choice(['HHZ', 'HHE', 'BHZ']),)
    while a[:2] == b[:2]:
        b = pick(rng)[:2] + (b[2],)
    sr = rng.choice([1, 4])
    cfg = dict(start=0, inc=600, len=600, ci=300, cl=300, S=rng.choice(
        [20, 25.5]), method='betweenStations', xcombis=None, recomb=False,
        dele=False, sr=sr)
    extra = dict(center_correlation=rng.random() < .5,
                 normalize_correlation=rng.random() < .5)
    delay = rng.randint(-12 * sr, 12 * sr) / sr
    # the samples of one station may lie between those of the other
    fine = rng.random() < .6
    phase = [rng.choice([0, .25, .5]) / sr, 0] if fine else [0, 0]
    rng.shuffle(phase)
    if fine:
        delay = round(rng.uniform(-12, 12), 2)
    pulses = [(T + rng.uniform(-8, 8), rng.uniform(1, 9))
              for T in (60, 100, 150, 210, 360, 420, 500, 540)]
    res = []
    subdiv = rng.random() < .3
    for x, y in ((a, b), (b, a)):
        p = SwapProject(ctx.dir(), cfg, [])
        p.extra = extra
        p.store([Smooth(x, pulses, 0, phase[0], sr, -300, 1200),
                 Smooth(y, pulses, delay, phase[1], sr, -300, 1200)])
        err = p.run(600, subdiv=subdiv)
        res.append([] if err else p.stored())
        shutil.rmtree(p.root)
    ev.append(dict(ev='Reset'))
    ev.append(dict(ev='Run', x=ident(a), y=ident(b), delay=us(delay),
                   tol=int(150000 / sr) if fine else 60000, vtol=30,
                   one=res[0], two=res[1],
                   phase=[us(z) for z in phase], extra=str(extra)))


def describe(b):
    return 'Mirror:%s' % b['clause']


def run(ctx):
    ctx.model('MirrorMC', ctx.pick('Mirror_mc.cfg', 'Mirror_big.cfg'))
    ev = ctx.pmap([(functions, ctx.pick(24, 300)),
                   (runs, ctx.pick(40, 400))], None)
    ctx.cov['calls'] = len(ev)
    ctx.validate('MirrorTrace', ev, 'PairsTrace.cfg', describe, chunk=600)
    ctx.assumptions = ['one location code per channel',
                       'both channels have the same sampling rate']
