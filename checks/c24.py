"""
C24: post-processing of correlation matrices. PostProc.tla holds each step as a
function of one row or of the lag axis; PostMC explores sequences of steps on
the axis whose samples know their true lag. Real steps run on random matrices,
on selections and orders of their rows and in sequence on CorrBulk.
"""
import numpy as np

import seismic.monitor.post_corr_process as pcp
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrBulk

import dbdrive as dd
from vf import quiet

M, S, NONE = -2000000000, 100, -1999999999
INTERVALS = [50000, 100000, 40000, 250000, 125000, 200000]


def enc(x):
    x = np.asarray(x, dtype=np.float64)
    fin = np.isfinite(x) & (np.abs(x) < 1e7)
    y = np.full(x.shape, M, dtype=np.int64)
    y[fin] = np.round(x[fin]*S).astype(np.int64)
    return y.tolist()


def us(x):
    return int(round(x*1e6))


def head(stats):
    return dict(start=us(stats['start_lag']), dt=us(stats['delta']),
                n=int(stats['npts']), last=us(stats['end_lag']))


class Gen:
    def __init__(self, rng, ev):
        self.rng, self.ev = rng, ev

    def axis(self, n, zero=None):
        """header of n samples; zero: number of samples before zero lag"""
        rng = self.rng
        dt = rng.choice(INTERVALS)
        z = rng.choice([(n - 1)//2, (n - 1)//2, 0, rng.randint(-3, n + 2)])
        return dict(dt=dt, n=n, start=-(z if zero is None else zero)*dt)

    def stats(self, h, r):
        s = CorrStats()
        s['sampling_rate'] = 1e6/h['dt']
        s['npts'] = h['n']
        # as computed by the correlation or given in the file
        s['start_lag'] = h['start']/1e6 if self.rng.random() < .7 else \
            (h['start']//h['dt'])*s['delta']
        s['ntrcs'] = r
        s['corr_start'] = [dd.BASE + 100*i for i in range(r)]
        s['corr_end'] = [dd.BASE + 100*i + 100 for i in range(r)]
        return s

    def matrix(self, n=None, r=None, nan=.1, zero=.08, const=False):
        rng = self.rng
        r = r or rng.randint(1, 5)
        n = n or rng.randint(2, 16)
        A = []
        for _ in range(r):
            x = [rng.randint(-20, 20) for _ in range(n)]
            k = rng.random()
            if k < nan:
                x = [M]*n
            elif k < nan + zero:
                x = [0]*n
            elif k < nan + zero + .1:
                x = [-7]*n
            elif k < nan + zero + .2:
                x = [v//5 for v in x]
                x[rng.randrange(n)] = 20
            A.append(x)
        if const:
            A[0] = [20]*n
        return A

    def subsets(self, r):
        rng = self.rng
        sel = [[i] for i in range(r)]
        rng.shuffle(sel)
        o = list(range(r))
        rng.shuffle(o)
        return sel[:2] + [o, o[:rng.randint(1, r)]]

    def real(self, A):
        B = np.array(A, dtype=np.float64)
        B[B == M] = np.nan
        return B

    def step(self, name, f, A, h, refused=False, subsets=None, op=None,
             deg=1, bulk=None, **kw):
        """
        f(matrix, stats) -> matrix or (matrix, stats). deg: power of the
        amplitude of the result in that of the matrix. bulk: the same on a
        CorrBulk
        """
        use = self.rng.random() < .5

        def call(rows, scale=1, loud=[]):
            B = self.real(rows)*scale
            if len(loud):
                B = np.concatenate((B, self.real(loud)*2.**20))
            s = self.stats(h, len(B))
            try:
                with quiet():
                    if bulk and use:
                        cb = CorrBulk(B, s)
                        bulk(cb)
                        C = cb.data, cb.stats
                    else:
                        C = f(B, s)
                    if isinstance(C, tuple):
                        C, s = C
                    if len(loud):
                        C = C[:len(rows)]
                    return True, '', enc(C*float(scale)**-(deg or 0)), head(s)
            except Exception as e:
                return False, '%s: %s' % (type(e).__name__, e), [], head(s)
        ok, err, out, h2 = call(A)
        some = []
        for rows in (self.subsets(len(A)) if subsets is None else subsets):
            o, er, res, _ = call([A[i] for i in rows])
            if not refused:
                some.append(dict(rows=[i + 1 for i in rows], ok=o, err=er,
                                 out=res))
        if not refused:
            q = list(range(len(A)))
            runs = []
            if deg is not None:
                runs = [(list(q), call(A, 2.**self.rng.choice([-100, -30, 30])))]
            if subsets is None:
                # next to much larger amplitudes
                self.rng.shuffle(q)
                runs.append((q[:1], call([A[q[0]]], loud=[
                    A[i] for i in q[1:] or q])))
            for rows, (o, er, res, _) in runs:
                some.append(dict(rows=[i + 1 for i in rows], ok=o, err=er,
                                 out=res))
        self.ev.append(dict(
            dict(op='none'), ev='Step', step=name, ok=ok, err=err, out=out,
            some=some, A=A, h=h, h2=h2, refused=refused, **(op or {}), **kw))

    # -- samples -----------------------------------------------------------
    def clip(self):
        A = self.matrix()
        f2, axis = self.rng.randint(1, 5), self.rng.choice([0, 1, 1, None])
        perm = list(range(len(A)))
        self.rng.shuffle(perm)
        self.step('clip', lambda B, s: pcp.corr_mat_clip(B, f2/2, axis), A,
                  self.axis(len(A[0])), f2=f2, axis=-1 if axis is None
                  else axis, bulk=lambda cb: cb.clip(f2/2, axis), subsets=None if axis == 1 else [perm])

    def normalize(self):
        rng = self.rng
        A = self.matrix(lo(rng))
        n = len(A[0])
        h = self.axis(n)
        a, b = sorted((rng.randint(-2, n + 1), rng.randint(-2, n + 1)))
        frac = rng.choice([0, 0, .3, .5])
        lag = [h['start'] + int((k + frac)*h['dt']) for k in (a, b + 1)]
        if rng.random() < .3:
            lag[0] = NONE
        if rng.random() < .3 or (lag[0] != NONE and a >= n):
            lag[1] = NONE
        if lag[0] != NONE and a >= n:
            lag[0] = NONE
        t = rng.choice(['energy', 'abssum', 'max', 'absmax'])
        x, y = (None if v == NONE else v/1e6 for v in lag)
        # amplitudes without a norm are kept
        i = 0 if lag[0] == NONE else a
        j = n if lag[1] == NONE else b + 1
        deg = 0 if 0 <= i < j <= n and (j < n or lag[1] == NONE) and all(
            set(v[i:j]) != {0} and (t != 'max' or max(v[i:j]))
            for v in A) else None
        self.step('normalize', lambda B, s: pcp.corr_mat_normalize(
            B, s, x, y, t), A, h, a=lag[0], b=lag[1], type=t,
            deg=deg, bulk=lambda cb: cb.normalize(x, y, t))

    def smooth(self):
        rng = self.rng
        axis = rng.choice([0, 0, 1])
        A = self.matrix(r=rng.randint(2, 10) if axis else None)
        n = len(A) if axis else len(A[0])
        w = rng.choice([rng.randint(1, n), n, min(n, 5), n + rng.randint(0, 2)])
        t = rng.choice(['flat', 'flat', 'bartlett', 'hanning', 'hamming',
                        'blackman'])
        self.step('smooth', lambda B, s: pcp.corr_mat_smooth(B, w, t, axis),
                  A, self.axis(len(A[0])), refused=w > n, w=w, type=t,
                  axis=axis, subsets=[] if axis else None,
                  bulk=lambda cb: cb.smooth(w, t, axis))

    def envelope(self):
        A = self.matrix(self.rng.choice([None, 2, 4, 8, 12]))
        self.step('envelope', lambda B, s: pcp.corr_mat_envelope(B), A,
                  self.axis(len(A[0])), bulk=lambda cb: cb.envelope())

    def decay(self):
        rng = self.rng
        n = rng.randint(3, 15)
        h = self.axis(n)
        g = rng.uniform(0, .5)
        # decays with the lag
        A = []
        for _ in range(rng.randint(1, 4)):
            A.append([int(rng.choice([-1, 1])*(1 + rng.randint(5, 20)*np.exp(
                -g*abs(k + h['start']//h['dt'])))) for k in range(n)])
        if len(A) > 1 and rng.random() < .2:
            A[rng.randrange(len(A))] = [M]*n
        env = np.round(pcp.corr_mat_envelope(self.real(A))*1e6)
        if not (np.nan_to_num(env, nan=1e6) > 1e4).all():
            return
        env[np.isnan(env)] = M
        # magnitudes are kept apart from those of samples: ratios
        with quiet():
            try:
                B = self.real(A)
                C = pcp.corr_mat_correct_decay(B.copy(), self.stats(
                    h, len(A)))
                r = np.log(B/C)*1000
                r[~np.isfinite(r)] = M
                ratio = np.round(r).astype(int).tolist()
            except Exception:
                ratio = []
        self.step('decay', lambda B, s: pcp.corr_mat_correct_decay(B, s), A, h,
                  subsets=[], env=env.astype(int).tolist(), ratio=ratio, deg=0,
                  bulk=lambda cb: cb.correct_decay())

    def taper(self):
        rng = self.rng
        A = self.matrix(rng.randint(4, 16), const=True)
        n = len(A[0])
        h = self.axis(n)
        w = rng.choice([0, rng.randint(0, n//2), rng.randint(0, n//2),
                        n + rng.randint(1, 3)])
        d = rng.choice([0, 0, -.2]) if 0 < w else 0
        self.step('taper', lambda B, s: pcp.corr_mat_taper(
            B, s, (w + d)*h['dt']/1e6), A, h, refused=w > n, w=w,
            bulk=lambda cb: cb.taper((w + d)*h['dt']/1e6))

    def center(self):
        rng = self.rng
        A = self.matrix(const=True, nan=0)
        n = len(A[0])
        z = rng.choice([(n - 1)//2, (n - 1)//2, 0, n - 1, rng.randint(-3, n + 2)])
        h = self.axis(n, z)
        w = rng.choice([0, rng.randint(1, n), rng.randint(1, n), n + 2, -1])
        frac = rng.choice([.05, .05, .2, .5, 1, 0])
        half = -(-w//2)
        # samples of the slope, one more if it is no exact number
        slope = int(np.ceil(np.round(half*frac, 6)))
        self.step('center', lambda B, s: pcp.corr_mat_taper_center(
            B, s, w*h['dt']/1e6, frac), A, h, refused=w > n or w < 0,
            half=half, slope=slope, z=z + 1,
            bulk=lambda cb: cb.taper_center(w*h['dt']/1e6, frac))

    def filter(self):
        rng = self.rng
        A = self.matrix(rng.randint(10, 30), r=rng.randint(3, 6))
        for i in (0, 1):
            A[i] = [rng.randint(-20, 20) for _ in A[i]]
        A[2] = [a + b for a, b in zip(*A[:2])]
        h = self.axis(len(A[0]))
        ny = 5e5/h['dt']
        f = sorted(rng.sample([.1, .2, .3, .5, .7, .9], 2))
        o = rng.choice([1, 2, 3])
        self.step('filter', lambda B, s: pcp.corr_mat_filter(
            B, s, (f[0]*ny, f[1]*ny), o), A, h,
            bulk=lambda cb: cb.filter((f[0]*ny, f[1]*ny), o))

    def rate(self):
        """decimate or resample"""
        rng = self.rng
        A = self.matrix(rng.randint(12, 40))
        h = self.axis(len(A[0]))
        p, q = rng.choice([(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (3, 2),
                           (5, 2), (4, 3), (5, 4), (2, 3), (7, 5)])
        f = 1e6*q/(h['dt']*p)
        if q == 1 and rng.random() < .5:
            self.step('decimate', lambda B, s: pcp.corr_mat_decimate(B, s, p),
                      A, h, op=dict(op='decimate', f=p))
        else:
            g = rng.choice([pcp.corr_mat_resample_or_decimate]*2 + [
                pcp.corr_mat_resample_time]*(q > 1))
            self.step('resample', lambda B, s: g(B, s, f), A, h,
                      refused=p < q, op=dict(op='resample', p=p, q=q),
                      bulk=lambda cb: cb.resample_time_axis(f))

    def signal(self):
        rng = self.rng
        dt = rng.choice(INTERVALS)
        n, ny = rng.choice([600, rng.randint(560, 640)]), 5e5/dt
        f1 = rng.choice([.08, .15, .25])
        f2 = f1*rng.choice([2.5, 3])
        inside = rng.random() < .5
        what = rng.choice(['filter', 'filter', 'rate'])
        if what == 'filter':
            f = np.sqrt(f1*f2) if inside else rng.choice([f1/3, min(
                .97, 3*f2)])
            if not inside and f > .9:
                f = f1/3
        else:
            p, q = rng.choice([(2, 1), (3, 1), (5, 1), (3, 2), (5, 2)])
            # of the new band
            f = q/p*(rng.uniform(.2, .4) if inside else rng.uniform(1.5, 2))
            if f > .95:
                f = .95
        s = self.stats(dict(dt=dt, n=n, start=-300*dt), 2)
        t = np.arange(n)*dt/1e6
        ph = rng.uniform(0, 6)
        x = np.sin(2*np.pi*f*ny*t + ph)
        ok, err, a, b = True, '', [], []
        try:
            with quiet():
                B = np.array([x, np.zeros(n)])
                if what == 'filter':
                    C = pcp.corr_mat_filter(B, s, (f1*ny, f2*ny))
                else:
                    C, s = pcp.corr_mat_resample_or_decimate(
                        B, s, 2*ny*q/p)
            u = np.arange(C.shape[1])*s['delta']
            mid = (u > 200*dt/1e6) & (u < 400*dt/1e6)
            a = enc(10*np.sin(2*np.pi*f*ny*u + ph)[mid])
            b = enc(10*C[0][mid])
            # aliases are compared with the power of the signal
        except Exception as e:
            ok, err = False, repr(e)
        if not inside and what == 'rate':
            a = enc(10*x[200:200 + len(a)])
        self.ev.append(dict(ev='Signal', step=what, ok=ok, err=err, x=a, y=b,
                            inside=bool(inside)))

    # -- sequences ---------------------------------------------------------
    def chain(self):
        rng = self.rng
        n = rng.choice([201, 401, 300])
        z = rng.choice([(n - 1)//2, (n - 1)//2, n//3, 0])
        h = self.axis(n, z)
        dt = h['dt']
        r = rng.randint(1, 4)
        B = np.array([[rng.gauss(0, 1) for _ in range(n)] for _ in range(r)])
        c = rng.randint(n//3, 2*n//3)
        if z and abs(c - z) < 20:
            c = z + 30
        k = np.arange(n)
        B[0] = 20*np.exp(-((k - c)/8)**2)
        if r > 1 and rng.random() < .2:
            B[-1] = np.nan
        ops, fs = [], []
        peak, tol, g, lone = (c - z)*dt, 0, dict(h), True
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(['trim', 'mirror', 'rate', 'rate', 'filter',
                            'smooth', 'envelope', 'normalize', 'clip', 'taper',
                            'center', 'decay'])
            sr = 1e6/g['dt']
            if o == 'trim':
                # keeps the arrival
                pk = abs(peak) if g['start'] == 0 and z else peak
                i = (pk - g['start'])//g['dt']
                a, b = rng.randint(0, max(0, i - 15)), rng.randint(
                    min(g['n'] - 1, i + 15), g['n'] - 1)
                a, b = (g['start'] + v*g['dt'] for v in (a, b))
                ops.append(dict(op='trim', a=a, b=b))
                fs.append(lambda cb, a=a, b=b: cb.trim(a/1e6, b/1e6))
            elif o == 'mirror':
                if g['start'] % g['dt'] or rng.random() < .4:
                    continue
                # where only one side has data amplitudes are not halved
                side = min(-g['start'], g['start'] + (g['n'] - 1)*g['dt'])
                lone = lone and abs(abs(peak) - side) > 30*dt
                ops.append(dict(op='mirror'))
                fs.append(lambda cb: cb.mirror())
            elif o == 'rate':
                p, q = rng.choice([(2, 1), (3, 1), (3, 2), (5, 4), (5, 2)])
                if g['n']*q//p < 60 or (g['dt']*p) % q:
                    continue
                if g['dt']*p > 3*dt*q:
                    continue
                ops.append(dict(op='resample', p=p, q=q))
                fs.append(lambda cb, f=1e6*q/(p*g['dt']):
                          cb.resample_time_axis(f))
            elif o == 'filter':
                f = (.02*sr/2, .6*sr/2)
                ops.append(dict(op='filter'))
                fs.append(lambda cb, f=f: cb.filter(f))
            elif o == 'smooth':
                w = rng.choice([1, 3, 5])
                ops.append(dict(op='smooth'))
                fs.append(lambda cb, w=w: cb.smooth(w, 'flat', 0))
            elif o == 'envelope':
                ops.append(dict(op='envelope'))
                fs.append(lambda cb: cb.envelope())
            elif o == 'normalize':
                t = rng.choice(['energy', 'absmax'])
                ops.append(dict(op='normalize'))
                fs.append(lambda cb, t=t: cb.normalize(normtype=t))
            elif o == 'clip':
                ops.append(dict(op='clip'))
                fs.append(lambda cb: cb.clip(3))
                lone = False
            elif o == 'taper':
                ops.append(dict(op='taper'))
                fs.append(lambda cb, w=5*g['dt']/1e6: cb.taper(w))
                lone = False
            elif o == 'center':
                ops.append(dict(op='center'))
                fs.append(lambda cb, w=8*g['dt']/1e6: cb.taper_center(w))
                lone = False
            elif o == 'decay':
                # the fit is over all rows
                if g['start'] % g['dt'] or rng.random() < .7:
                    continue
                ops.append(dict(op='decay'))
                fs.append(lambda cb: cb.correct_decay())
                lone = False
            # where the arrival may still be trimmed around
            g = axis(g, ops[-1])
        if not ops:
            return
        st = self.stats(h, r)
        before = rng.choice([0, 1])

        def call(rows):
            s = st.copy()
            s['ntrcs'] = len(rows)
            for k in ('corr_start', 'corr_end'):
                s[k] = [st[k][i] for i in rows]
            cb = CorrBulk(B[rows].copy(), s)
            cb.stats['processing_bulk'] = ['loaded']*before
            heads = []
            labels = [s[k] for k in ('corr_start', 'corr_end')]
            try:
                with quiet():
                    for f in fs:
                        f(cb)
                        q = cb.stats
                        heads.append(dict(
                            head(q), rows=cb.data.shape[0],
                            cols=cb.data.shape[1], ntrcs=int(q['ntrcs']),
                            steps=len(q['processing_bulk']), labels=[
                                list(q[k]) for k in (
                                    'corr_start', 'corr_end')] == labels))
                return True, '', heads, enc(cb.data)
            except Exception as e:
                return False, repr(e), heads, []
        ok, err, heads, out = call(list(range(r)))
        some = []
        if not any(o['op'] == 'decay' for o in ops):
            for rows in self.subsets(r)[-3:]:
                o, er, _, res = call(rows)
                some.append(dict(rows=[i + 1 for i in rows], ok=o, err=er,
                                 out=[x[:60] for x in res]))
        self.ev.append(dict(
            ev='Chain', ok=ok, err=err, heads=heads, h=h, ops=ops, rows=r,
            before=before, labels=True, first=out[0] if out else [],
            out=[x[:60] for x in out], some=some,
            peak=int(peak) if lone else M, tol=2*dt))


def lo(rng):
    return rng.randint(2, 14)


def axis(h, o):
    """only to choose arguments: the axis after a step"""
    st, dt, n = h['start'], h['dt'], h['n']
    if o['op'] == 'trim':
        return dict(start=o['a'], dt=dt, n=(o['b'] - o['a'])//dt + 1)
    if o['op'] == 'mirror' and st < 0 < st + (n - 1)*dt:
        return dict(start=0, dt=dt, n=max(-st//dt + 1, n + st//dt))
    if o['op'] == 'resample':
        p, q = o['p'], o['q']
        return dict(start=st, dt=dt*p//q,
                    n=-(-n//p) - 1 if q == 1 else n*q//p)
    return h


STEPS = ['clip', 'normalize', 'normalize', 'smooth', 'smooth', 'envelope',
         'decay', 'taper', 'center', 'filter', 'rate', 'signal', 'chain',
         'chain', 'chain']


def calls(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for _ in range(30):
        getattr(g, rng.choice(STEPS))()


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('PostMC', ctx.pick('Post_mc.cfg', 'Post_big.cfg'))
    ev = ctx.pmap(calls, ctx.pick(112, 2000))
    ctx.cov['calls'] = {
        k: sum(e.get('step', e['ev']) == k for e in ev) for k in sorted({
            e.get('step', e['ev']) for e in ev})}
    ctx.validate('PostTrace', ev, 'PairsTrace.cfg', describe, chunk=160)
    ctx.assumptions = [
        'samples are small integers; filters are decided by linearity, by '
        'sinusoids in and outside of the band and by the lag of an arrival']
