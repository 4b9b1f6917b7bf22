"""
C22: the spatial inversion. Inversion.tla defines which curves enter, the
equation a solution satisfies and the alignment of curves; InversionMC explores
a grid in use (stored kernels, repeated alignment). Real grids are used with
random stations, curves, windows and parameters; every result is checked by
InversionTrace, as are kernels of transformed geometries.
"""
import os
import shutil
import tempfile
import warnings

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.monitor import spatial as sp
from seismic.monitor.dv import DV, read_dv

import dbdrive as dd

M = -2000000000
BASE = dd.BASE


def enc(x, f=1000000):
    x = np.asarray(x, dtype=np.float64)
    fin = np.isfinite(x) & (np.abs(x) < 2e9/f)
    y = np.full(x.shape, M, dtype=np.int64)
    y[fin] = np.round(x[fin]*f).astype(np.int64)
    return y.tolist()


def call(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return f(), True, ''
        except Exception as e:
            return None, False, type(e).__name__


class Session:
    def __init__(self, rng, ev):
        self.rng, self.ev = rng, ev
        ev.append(dict(ev='Reset'))
        self.nx, self.ny = rng.randint(2, 6), rng.randint(2, 5)
        self.res = rng.choice([1, 1, .5, .25, .1, .3, .7, 2])
        self.vel, self.dt = self.res, .25
        self.mfp = self.res*rng.choice([1, 2, 5])
        self.lat0, self.lon0 = rng.choice([(0, 0), (10, 20), (-33, -71)])
        self.g = self.grid()
        deg = self.res/111.2
        pos = set()
        while len(pos) < rng.randint(2, 5):
            pos.add((rng.randint(0, 4*self.ny - 4)/4,
                     rng.randint(0, 4*self.nx - 4)/4))
        self.pos = [(self.lat0 + a*deg, self.lon0 + b*deg) for a, b in
                    sorted(pos, key=lambda x: rng.random())]
        n = len(self.pos)
        self.pairs = []
        for _ in range(rng.randint(2, 5)):
            a = rng.randrange(n)
            b = rng.randrange(n)
            if (a, b) not in self.pairs:
                self.pairs.append((a, b))
        self.own = None
        if rng.random() < .85:
            self.own = (self.window(), self.band())
        self.curves = [self.curve(k) for k in range(rng.randint(1, 7))]
        self.kern = {}

    def grid(self):
        # the extent is not a multiple of the resolution in general
        return sp.DVGrid(
            self.lat0, self.lon0, self.res, (self.nx - 1.3)*self.res,
            (self.ny - 1.3)*self.res, self.dt, self.vel, self.mfp)

    def window(self):
        a = self.rng.randint(1, 7)
        return a, a + self.rng.randint(1, 6)

    def band(self):
        a = self.rng.randint(1, 15)
        return a, a + self.rng.randint(1, 15)

    def curve(self, k):
        rng = self.rng
        n = rng.choice([1, 3, 6, 8, 12, 12, 12])
        t0 = rng.choice([0, 0, 0, 5, 30])
        step = rng.choice([2, 4, 4, 10])
        starts = [t0 + step*i for i in range(n)]
        if rng.random() < .2:
            # gaps between windows
            starts = sorted(rng.sample(range(t0, t0 + 60), n))
        ends = [s + 4 for s in starts]
        corr = [rng.choice([0, 100, 5, 95]) if rng.random() < .08 else
                rng.randint(10, 90) for _ in starts]
        val = [rng.randint(-50, 50) for _ in starts]
        corr = np.array(corr)/100.
        val = np.array(val)/1000.
        gap = np.array([rng.random() < .1 for _ in starts])
        corr[gap] = np.nan
        val[gap] = np.nan
        pair = rng.randrange(len(self.pairs))
        a, b = (self.pos[i] for i in self.pairs[pair])
        s = CorrStats(dict(network='AA-BB', station='S%d-S%d' % (
            self.pairs[pair]), channel='HH%d-HHZ' % k))
        s['corr_start'] = [BASE + 3600*t for t in starts]
        s['corr_end'] = [BASE + 3600*t for t in ends]
        s['stla'], s['stlo'] = a
        s['evla'], s['evlo'] = b
        p = {}
        if self.own:
            (t1, t2), (f1, f2) = self.own
            p = dict(dv_processing=dict(
                freq_min=f1/10, freq_max=f2/10, tw_start=t1, tw_len=t2 - t1,
                sides='both', aligned=False))
        dv = DV(corr, val, 'stretch', np.zeros((n, 3)), np.arange(3.),
                'stretch', s, **p)
        dv.k, dv.starts, dv.ends, dv.pair = k, starts, ends, pair
        return dv

    def spec(self, dv):
        f = dv.dv_processing.get('aligned', False)
        return dict(
            starts=dv.starts, ends=dv.ends, vals=enc(dv.value),
            corr=enc(dv.corr, 100), pair=dv.pair + 1,
            aligned=f is not False, flag=M if f is False else enc(f))

    def kernels(self, tw):
        """The kernel of each pair alone (from the forward model)"""
        tw = tuple(tw)
        if tw in self.kern:
            return self.kern[tw]
        out = []
        for a, b in self.pairs:
            g = self.grid()
            row = []
            for k in range(self.g.xgrid.size):
                u = np.zeros(self.g.xgrid.size)
                u[k] = 1
                v, ok, err = call(lambda: g.forward_model(
                    u.reshape(self.g.xgrid.shape), tw=tw,
                    stat0=[self.pos[a]], stat1=[self.pos[b]]))
                row.append(v[0] if ok else np.nan)
            out.append(row)
        self.kern[tw] = out
        return out

    def common(self, curves, utc):
        rng = self.rng
        argtw = self.window() if rng.random() < .3 else ()
        argf = list(self.band()) if rng.random() < .3 else [0, 0]
        if argf[0] and rng.random() < .2:
            argf[rng.randrange(2)] = 0
        o = self.own
        f = [argf[i] or (o[1][i] if o else 0) for i in (0, 1)]
        if 0 not in f and f[0] >= f[1]:
            argf = [0, 0]
        e = dict(
            curves=[self.spec(c) for c in curves], utc=utc,
            own=dict(tw=list(o[0]) if o else [], f=list(o[1]) if o else []),
            argtw=list(argtw), argf=argf,
            kernown=enc(self.kernels(o[0]), 1e4) if o else [],
            kernarg=enc(self.kernels(argtw), 1e4) if argtw else [],
            pairs=[list(p) for p in self.pairs], nx=self.g.xgrid.shape[1])
        kw = {}
        if argtw:
            kw['tw'] = tuple(argtw)
        for i, n in enumerate(('freq0', 'freq1')):
            if argf[i]:
                kw[n] = argf[i]/10
        return e, kw

    def stations(self):
        g = self.g
        if not hasattr(g, 'statx'):
            return []
        n = {len(np.atleast_1d(x)) for x in (
            g.statx, g.staty, g.statlat, g.statlon)}
        if len(n) > 1:
            return [dict(id=-1, right=False)]
        out = []
        for x, y, la, lo in zip(g.statx, g.staty, g.statlat, g.statlon):
            i = [j for j, p in enumerate(self.pos) if p == (la, lo)]
            xy = sp.geo2cart(la, lo, self.lat0, self.lon0)
            out.append(dict(id=i[0] if i else -1, right=bool(
                np.allclose(xy, (x, y)))))
        return out

    def subset(self):
        rng = self.rng
        c = [x for x in self.curves if rng.random() < .8]
        rng.shuffle(c)
        return c

    def utc(self):
        return self.rng.choice([-1, 0, 2, 4, 6, 7, 10, 14, 16, 18, 20, 21, 33,
                                40, 52])

    def invert(self):
        rng = self.rng
        curves, utc = self.subset(), self.utc()
        what = rng.choice(['grid', 'grid', 'grid', 'resolution', 'tsvd',
                           'covariance'])
        e, kw = self.common(curves, utc)
        k = e['kernarg'] or e['kernown']
        if k and max(map(max, k)) > 20000:
            # beyond the range of the numbers of the specification: a window
            # around the arrival and a station on a cell
            return
        tw = e['argtw'] or e['own']['tw']
        f = [e['argf'][i] or (e['own']['f'] or [0, 0])[i] for i in (0, 1)]
        s2 = 1
        if tw and 0 not in f:
            q = 10**rng.uniform(-1.2, .2)
            s2 = max(1, round(q*1e4/(
                (tw[1]**3 - tw[0]**3)*(f[0] + f[1])**2*(f[1] - f[0])
                * 1.3124675e-5)))
        cl = self.res*rng.choice([.5, 1, 2, 3])
        sf = self.res*rng.choice([.5, 1, 2])
        std = np.sqrt(s2)/1000*cl/sf
        ny, nx = self.g.xgrid.shape
        E = enc([np.exp(-self.res*np.sqrt(n)/cl)
                 for n in range(nx**2 + ny**2 + 1)], 1e4)
        before = [self.spec(c) for c in curves]
        t = BASE + 3600*utc
        # an iterator will do
        src = iter(curves) if rng.random() < .5 else curves
        g = self.g
        e.update(ev='Invert', what=what, s2=s2, E=E, out=[], res=[],
                 cols=[], u=[], s=[], w=[], cutoff=0, symmetric=True,
                 kept=True)
        joint = what == 'grid' and rng.random() < .3
        if what == 'grid':
            m, ok, err = call(lambda: g.compute_dv_grid(
                src, t, sf, cl, std, compute_resolution=joint, **kw))
            if ok:
                e['kept'] = bool(np.array_equal(m, g.vel_change)
                                 and m.shape == g.xgrid.shape)
                if joint:
                    e['res'] = enc(g.resolution.ravel(), 1e4)
        elif what == 'tsvd':
            e['cutoff'] = rng.choice([1, 50, 200, 500])
            m, ok, err = call(lambda: g.compute_dv_tsvd(
                src, t, cutoff=e['cutoff']/1000, **kw))
            if ok:
                e['kept'] = bool(np.array_equal(m, g.vel_change)
                                 and m.shape == g.xgrid.shape)
                if not self.tsvd(e, curves, utc, m, tw):
                    e['what'] = 'other'
        elif what == 'resolution':
            m, ok, err = call(lambda: g.compute_resolution(
                src, t, sf, cl, std, **kw))
            if ok:
                e['kept'] = bool(np.array_equal(m, g.resolution)
                                 and m.shape == g.xgrid.shape)
        else:
            m, ok, err = call(lambda: g.compute_posterior_covariance(
                src, t, sf, cl, std, **kw))
            if ok:
                m = m/(std*sf/cl)**2
                e['symmetric'] = bool(np.allclose(m, m.T, atol=1e-6))
                for k in rng.sample(range(len(m)), 3):
                    e['cols'].append(dict(k=k + 1, x=enc(m[:, k], 1e4)))
        if ok and what != 'covariance':
            e['out'] = enc(m.ravel(), 1e4 if what == 'resolution' else 1e6)
        e.update(ok=ok, err=err, same=before == [
            self.spec(c) for c in curves], stat=self.stations())
        self.ev.append(e)

    def tsvd(self, e, curves, utc, m, tw):
        """
        Directions of the data and singular values. False if they are not
        determined well enough.
        """
        G = np.array([self.kernels(tw)[c.pair] for c in curves
                      if self.enters(c, utc)])
        if not len(G) or not G.any():
            return False
        u, s, _ = np.linalg.svd(G, full_matrices=True)
        s = np.r_[s, np.zeros(len(u) - len(s))]
        c = e['cutoff']/1000*s[0]
        if np.any(np.abs(s - c) < .02*s[0]) and e['cutoff'] > 1 or \
                e['cutoff'] == 1 and np.any((s > 1e-9) & (s < .01*s[0])):
            return False
        w = np.linalg.lstsq(G.T, m.ravel(), rcond=1e-6)[0]
        if np.abs(w).max() > 100 or np.abs(m).max() > 1:
            return False
        e.update(u=enc(u.T, 1e4), s=enc(s, 1e6), w=enc(w))
        return True

    @staticmethod
    def enters(c, utc):
        # only which directions to look at: the specification decides itself
        if utc < c.starts[0] or utc > c.ends[-1]:
            return False
        i = int(np.argmin(np.abs(np.array(c.starts) - utc)))
        return bool(0 < c.corr[i] < 1)

    def forward(self):
        rng = self.rng
        curves, utc = self.subset(), self.utc()
        e, kw = self.common(curves, utc)
        kw = {k: v for k, v in kw.items() if k == 'tw'}
        shape = rng.random() < .1
        m = np.array([rng.randint(-50, 50)/1000 for _ in range(
            self.g.xgrid.size)]).reshape(self.g.xgrid.shape)
        which = [rng.randrange(len(self.pairs))
                 for _ in range(rng.randint(1, 4))]
        stations = bool(kw) and rng.random() < .5
        dvs = not stations and rng.random() < .9
        if stations:
            kw['stat0'] = [self.pos[self.pairs[i][0]] for i in which]
            kw['stat1'] = [self.pos[self.pairs[i][1]] for i in which]
        if dvs:
            kw['dvs'] = curves
            kw['utc'] = BASE + 3600*utc
        out, ok, err = call(lambda: self.g.forward_model(
            m[:, :-1] if shape else m, **kw))
        e.update(
            ev='Forward', m=enc(m.ravel()), out=enc(out) if ok else [], ok=ok,
            err=err, which=[i + 1 for i in which], stations=stations, dvs=dvs,
            shape=shape, stat=self.stations())
        self.ev.append(e)

    def align(self):
        rng = self.rng
        curves, utc = self.subset(), self.utc()
        e, _ = self.common(curves, utc)
        steps, thr = rng.randint(0, 4), rng.choice([10, 30, 50, 70])
        model = enc(self.g.vel_change.ravel()) if hasattr(
            self.g, 'vel_change') else []
        save = bool(self.own) and rng.random() < .5
        out = tempfile.mkdtemp(prefix='c22') if save else False
        files = []
        try:
            ret, ok, err = call(lambda: self.g.align_dvs_to_grid(
                curves, BASE + 3600*utc, steps, thr/100 - 1e-6, save=out))
            for f in os.listdir(out) if save else []:
                d = read_dv(os.path.join(out, f))
                k = [i for i, c in enumerate(curves)
                     if f == 'DV-%s.npz' % c.stats.id
                     and c.stats.id == d.stats.id]
                files.append(dict(
                    k=k[0] + 1 if k else 0, vals=enc(d.value),
                    flag=enc(d.dv_processing['aligned'])))
        finally:
            if save:
                shutil.rmtree(out)
        e.update(
            ev='Align', steps=steps, thr=thr, model=model, save=save,
            files=files, ok=ok, err=err,
            ret=[[id(c) for c in curves].index(id(c)) + 1 for c in ret]
            if ok else [], after=[self.spec(c) for c in curves],
            stat=self.stations())
        self.ev.append(e)


def session(ctx, rng, ev):
    for _ in range(3):
        s = Session(rng, ev)
        if rng.random() < .3:
            s.align()
        for _ in range(rng.randint(3, 6)):
            getattr(s, rng.choice(['invert', 'invert', 'invert', 'forward',
                                   'align']))()


def kernel(rng, ev):
    # lengths in 1/4
    nx, ny = rng.randint(2, 9), rng.randint(2, 9)
    step = rng.choice([1, 2, 4])
    W, H = step*(nx - 1), step*(ny - 1)
    s1, s2 = ([rng.randint(-4, W + 4), rng.randint(-4, H + 4)]
              for _ in (0, 1))
    if rng.random() < .2:
        s2 = list(s1)
    vel = rng.choice([.5, 1, 2])
    dt = step/4/(2*vel)*rng.choice([.5, .25])
    n = rng.randint(4, 48)
    t = n*dt
    mfp = rng.choice([.5, 1, 4, 16])

    def K(a, b, x0=0, y0=0, tr=False):
        x = (np.arange(ny if tr else nx)*step + x0)/4
        y = (np.arange(nx if tr else ny)*step + y0)/4
        return call(lambda: sp.sensitivity_kernel(
            np.array(a)/4, np.array(b)/4, x, y, t, dt, vel, mfp))
    k, ok, err = K(s1, s2)
    top = k.max() if ok and k.max() > 0 else 1.
    z = (lambda k: enc(k.ravel()/top, 1e5) if k is not None else [])
    va = []
    for how, r in (
            ('swap', K(s2, s1)),
            ('shift', K([s1[0] + 12, s1[1] - 20], [s2[0] + 12, s2[1] - 20],
                        12, -20)),
            ('mirror', K([W - s1[0], s1[1]], [W - s2[0], s2[1]])),
            ('transpose', K(s1[::-1], s2[::-1], tr=True))):
        va.append(dict(how=how, K=z(r[0])))
    # the integral
    cells = []
    atol = vel*dt/2
    d12 = np.hypot(s1[0] - s2[0], s1[1] - s2[1])/4
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        p0 = float(sp.probability(d12, t, vel, mfp, atol))
        if ok and p0 > 0:
            T = np.arange(n + 1)*dt
            for _ in range(3):
                i, j = rng.randrange(nx), rng.randrange(ny)
                p1, p2 = (np.array([float(sp.probability(
                    np.hypot(step*i - s[0], step*j - s[1])/4, tt, vel, mfp,
                    atol)) for tt in T]) for s in (s1, s2))
                p2 = p2[::-1]
                a, b = p1.max(), p2.max()
                if not a*b:
                    continue
                cells.append(dict(
                    p1=enc(p1/a, 1e4), p2=enc(p2/b, 1e4),
                    got=enc(k[j, i]*p0/(dt*a*b), 1e4)))
    way = 4*vel*t
    slack = 4*vel*dt
    if way != int(way) or slack != int(slack):
        # in the units of the distances
        way, slack = int(way), int(np.ceil(slack)) + 1
    ev.append(dict(
        ev='Kernel', nx=nx, ny=ny, step=step, s1=s1, s2=s2, way=int(way),
        slack=2*int(slack), K=z(k), pos=[bool(x) for x in (k > 0).ravel()]
        if ok else [], ok=ok, err=err, variants=va, cells=cells))


TRIPLES = {5: [0, 3, 4, 5, 6], 13: [0, 5, 12, 13, 14],
           25: [0, 7, 15, 20, 24, 25, 30],
           65: [0, 16, 25, 33, 39, 52, 56, 60, 63, 65, 70]}


def prob(rng, ev):
    vel, mfp = rng.choice([.5, 1, 2, 4]), rng.choice([2, 5, 20, 50])
    rs = [rng.choice(sorted(TRIPLES)) for _ in range(rng.choice([1, 3]))]
    ds = rng.sample(TRIPLES[rs[0]], 4)
    dist = np.array(ds, float).reshape(2, 2)
    t = rs[0]/vel if len(rs) == 1 else np.array(rs)/vel
    p, ok, err = call(lambda: sp.probability(dist, t, vel, mfp, .01))
    shape = (2, 2) if len(rs) == 1 else (3, 2, 2)
    if not ok or np.shape(p) != shape:
        ev.append(dict(ev='Refused', what='probability', valid=True, ok=False))
        return
    p = np.reshape(p, (len(rs), 4))
    for i, r in enumerate(rs):
        for j, d in enumerate(ds):
            s = np.sqrt(max(0, r*r - d*d))
            if s != int(s):
                continue
            with np.errstate(divide='ignore'):
                lg = np.log(2*np.pi*p[i, j])
                lns, lnd = np.log(s), np.log(float(d))
            ev.append(dict(
                ev='Probability', r=r, d=d, s=int(s), mfp=mfp,
                log=enc(lg, 1e5), lnmfp=enc(np.log(mfp), 1e5),
                lns=enc(lns, 1e5), lnd=enc(lnd, 1e5)))


def geo(rng, ev):
    lat0, shrink = rng.choice([(0, 1), (60, 2), (-60, 2)])
    lon0 = rng.choice([0, 20, -150])
    n = rng.randint(1, 4)
    lat = [rng.randint(-200 if rng.random() < .1 else 0, 5000)
           for _ in range(n)]
    lon = [rng.randint(-200 if rng.random() < .1 else 0, 5000)
           for _ in range(n)]
    if n == 1 and rng.random() < .5:
        xy, ok, err = call(lambda: sp.geo2cart(
            lat0 + lat[0]/1e4, lon0 + lon[0]/1e4, lat0, lon0))
    else:
        xy, ok, err = call(lambda: sp.geo2cart(
            lat0 + np.array(lat)/1e4, lon0 + np.array(lon)/1e4, lat0, lon0))
    if 0 in lat and min(lat) == 0 or 0 in lon and min(lon) == 0:
        # equal up to rounding
        if not ok:
            return
    x, y = (np.atleast_1d(v).tolist() for v in xy) if ok else ([], [])
    ev.append(dict(ev='Geo', lat=lat, lon=lon, shrink=shrink, ok=ok, err=err,
                   x=enc(x, 1e3), y=enc(y, 1e3)))


def refused(rng, ev):
    a, b = rng.choice([(1, 3), (3, 1), (2, 2), (-1, 3), (0, 3)])
    bw, fc = rng.choice([1, .5, 0, -1]), rng.choice([1, 2, 0, -1])
    _, ok, _ = call(lambda: sp.data_variance(.5, bw, (a, b), fc))
    ev.append(dict(ev='Refused', what='variance', ok=ok,
                   valid=0 <= a < b and bw > 0 and fc > 0))
    d, t = rng.choice([0, 1, -1]), rng.choice([0, 1, -1])
    _, ok, _ = call(lambda: sp.probability(np.array([2., d]), t, 1., 1., .1))
    ev.append(dict(ev='Refused', what='probability', ok=ok,
                   valid=d >= 0 and t >= 0))
    kind = rng.randrange(5)
    ax = np.arange(4.)*rng.choice([.1, .3, 1, 1.7])
    x, y = ax.copy(), ax.copy()
    dt = ax[1]/8
    if kind == 0:
        x[2] += .3*ax[1]
    elif kind == 1:
        y = y[::-1]
    elif kind == 2:
        dt = rng.choice([0, -.1])
    elif kind == 3:
        x[:] = 1
    _, ok, _ = call(lambda: sp.sensitivity_kernel(
        np.array([0, 0]), np.array([ax[1], ax[2]]), x, y, 8*ax[1], dt, 1.,
        1.))
    ev.append(dict(ev='Refused', what='kernel', ok=ok, valid=kind == 4))


def pieces(ctx, rng, ev):
    for _ in range(10):
        kernel(rng, ev)
    for _ in range(6):
        prob(rng, ev)
        geo(rng, ev)
        refused(rng, ev)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('InversionMC', ctx.pick('Inversion_mc.cfg', 'Inversion_big.cfg'),
              workers=8, timeout=840)
    ev = ctx.pmap([(session, ctx.pick(80, 2000)),
                   (pieces, ctx.pick(16, 300))], None)
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev)
        for k in sorted({e['ev'] for e in ev})}
    ctx.cov['inversions'] = {
        k: sum(e.get('what') == k and e['ok'] for e in ev)
        for k in ('grid', 'resolution', 'covariance', 'tsvd')}
    ctx.validate('InversionTrace', ev, 'PairsTrace.cfg', describe, chunk=100)
    ctx.assumptions = [
        'at most 30 cells and 7 curves; correlations of at most 0.95',
        'kernels for the equation are taken from the forward model of each '
        'pair alone; exponentials and logarithms are given',
        'all curves of an inversion have the same processing parameters']
