"""Real correlation matrices, recorded as Bulk.tla sees them."""
import os

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import (
    CorrBulk, CorrStream, CorrTrace, read_corr_bulk)

import dbdrive as dd
from vf import code, quiet

BASE = dd.BASE
NAN = 999999999
LOCS = ['00-00', '00-10', '-', '0-00']
CHAS = ['HHZ-HHZ', 'HHZ-HHE', 'BHZ-HHZ', 'H-H']


def tenths(t):
    return int(round((t - BASE) * 10))


def samples(d):
    d = np.asarray(d, float)
    v = np.full(d.shape, NAN, dtype=np.int64)
    f = np.isfinite(d)
    v[f] = np.clip(np.round(d[f] * 1000), -500000000, 500000000)
    return v.tolist()


def aslist(x, n):
    return list(x) if isinstance(x, (list, np.ndarray)) else [x] * n


FIX = ['network', 'station', 'stla', 'stlo', 'stel', 'evla', 'evlo', 'evel']


def ident(s):
    return code('|'.join(str(s.get(k)) for k in FIX))


def observe(cb):
    s, d = cb.stats, cb.data
    n = d.shape[0] if d.ndim == 2 else -1
    cs, ce, loc, cha = [
        aslist(s[k], max(n, 0)) for k in
        ('corr_start', 'corr_end', 'location', 'channel')]
    return dict(
        rows=[dict(cs=tenths(a), ce=tenths(b), loc=code(x), cha=code(y))
              for a, b, x, y in zip(cs, ce, loc, cha)],
        uniform=len({len(cs), len(ce), len(loc), len(cha)}) == 1,
        nrow=n, ncol=d.shape[-1], npts=int(s.npts), ntrcs=int(s.ntrcs),
        lag=int(round(s.start_lag * 1000)), last=int(round(s.end_lag * 1000)),
        dt=int(round(s.delta * 1000)), data=samples(d), id=ident(s))


def observe_trace(tr):
    s = tr.stats
    return dict(
        rows=[dict(cs=tenths(s.corr_start), ce=tenths(s.corr_end),
                   loc=code(s.location), cha=code(s.channel))],
        ncol=len(tr.data), npts=int(s.npts), lag=int(round(s.start_lag*1000)),
        last=int(round(s.end_lag * 1000)), dt=int(round(s.delta * 1000)),
        data=[samples(tr.data)], id=ident(s))


class Rec:
    def __init__(self, rng, ev, root, slots=4, big=False, regular=False):
        self.rng, self.ev, self.root, self.big = rng, ev, root, big
        self.slots, self.max, self.regular = [], slots, regular
        self.shared = []
        ev.append(dict(ev='Reset'))

    def emit(self, ev, src, dst, ok=True, err='', op='', **k):
        base = dict(ev=ev, src=src + 1, dst=dst + 1, ok=ok, err=err, op=op,
                    res=[], obs=[observe(x) for x in self.slots])
        base.update(k)
        self.ev.append(base)

    def times(self, cb):
        s = cb.stats
        return sorted({tenths(t) for k in ('corr_start', 'corr_end')
                       for t in aslist(s[k], 1)}) or [0]

    def put(self, cb):
        """slot for a new matrix"""
        if len(self.slots) < self.max:
            self.slots.append(cb)
            return len(self.slots) - 1, []
        i = self.rng.randrange(len(self.slots))
        self.slots[i] = cb
        return i, []

    def new(self):
        rng = self.rng
        sr = rng.choice([4., 8., 10., 10., 20.])
        dt = 1 / sr
        n = rng.randint(1, 7)
        if self.big:
            lo, hi = rng.randint(-30, -12), rng.randint(12, 30)
        else:
            lo = rng.choice([rng.randint(-5, 0), rng.randint(-5, 3)])
            hi = lo + rng.choice([rng.randint(0, 8), 2 * abs(lo)])
        lag = lo * dt
        if rng.random() < .1:
            lag += .03
        ncol = hi - lo + 1
        varcha = rng.random() < .6
        locs = rng.sample(LOCS, rng.choice([1, 2, 3]))
        chas = rng.sample(CHAS, rng.choice([1, 2, 3])) if varcha \
            else [rng.choice(CHAS)]
        rows, st = [], CorrStream()
        t = 1000 * rng.randint(0, 5) + rng.choice([0, 0, 3])
        for k in range(n):
            if self.regular:
                cs = t
                t += 1000
            else:
                cs = t + 500 * rng.randint(0, 12)
            ce = cs + 500 * rng.choice([1, 2, 2, 4])
            v = [float(rng.randint(-9, 9)) for _ in range(ncol)]
            if rng.random() < .12 and not self.big:
                v = [np.nan] * ncol
            elif rng.random() < .12 and not self.big:
                v[rng.randrange(ncol)] = np.nan
            h = CorrStats(dict(
                network='A-B', station='S1-S%d' % len(self.slots),
                channel=rng.choice(chas), location=rng.choice(locs),
                corr_start=BASE + cs / 10, corr_end=BASE + ce / 10,
                sampling_rate=sr, start_lag=lag))
            h['stla'], h['evla'] = 1.5, 2.25
            rows.append(dict(cs=cs, ce=ce, loc=code(h.location),
                             cha=code(h.channel)))
            st.append(CorrTrace(np.array(v), _header=h))
        want = dict(rows=rows, lag=int(round(lag * 1000)),
                    dt=int(round(dt * 1000)), ncol=ncol,
                    data=[samples(t.data) for t in st])
        i = ident(st[0].stats)
        with quiet():
            cb = st.create_corr_bulk(
                channel=None if varcha else chas[0],
                inplace=rng.random() < .5)
        dst, _ = self.put(cb)
        self.emit('New', dst, dst, want=want, id=i)

    # -- operations ---------------------------------------------------------
    def lags(self, cb):
        s = cb.stats
        return [s.start_lag + i * s.delta for i in range(max(s.npts, 1))]

    def trim(self, i):
        rng, cb = self.rng, self.slots[i]
        L = self.lags(cb)
        dt = cb.stats.delta
        s = rng.choice(L) + rng.choice([0, 0, 0, .4 * dt, -.4 * dt])
        e = rng.choice(L) + rng.choice([0, 0, 0, .4 * dt, -.4 * dt])
        if rng.random() < .1:
            s = L[0] - rng.choice([1, 3]) * dt
        if rng.random() < .1:
            e = L[-1] + rng.choice([1, 3]) * dt
        s, e = round(s, 3), round(e, 3)
        if s > e:
            s, e = e, s
        if not any(s - 1e-6 <= x <= e + 1e-6 for x in L):
            return
        with quiet():
            cb.trim(s, e)
        self.emit('Trim', i, i, s=int(round(s * 1000)), e=int(round(e * 1000)))

    def mirror(self, i):
        ok, err = True, ''
        with quiet():
            try:
                self.slots[i].mirror()
            except TypeError as x:
                ok, err = False, repr(x)
        self.emit('Mirror', i, i, ok, err)

    def window(self, i):
        rng = self.rng
        T = self.times(self.slots[i])
        s, e = sorted([rng.choice(T) + rng.choice([0, 0, 0, 1, -1, 250])
                       for _ in range(2)])
        return s, e + (s == e)

    def slice(self, i):
        rng = self.rng
        s, e = self.window(i)
        p = rng.random() < .5
        with quiet():
            cb = self.slots[i].slice(BASE + s / 10, BASE + e / 10, p)
        src = self.slots[i]
        dst, _ = self.put(cb)
        self.emitfrom(src, i, 'Slice', dst, s=s, e=e, partial=p)

    def emitfrom(self, src, i, ev, dst, **k):
        """dst may have replaced the source: then the state before counts"""
        self.emit(ev, i, dst, **k)

    def select(self, i):
        rng = self.rng
        s, e = self.window(i)
        p = rng.random() < .5
        ok, err = True, ''
        dst = i
        with quiet():
            try:
                cb = self.slots[i].select_corr_time(
                    BASE + s / 10, BASE + e / 10, p)
            except ValueError as x:
                ok, err = False, repr(x)
        if ok:
            dst, _ = self.put(cb)
        self.emit('Select', i, dst, ok, err, s=s, e=e, partial=p)

    def rows(self, i):
        return self.slots[i].data.shape[0]

    def index(self, i):
        rng, n = self.rng, self.rows(i)
        kind = rng.choice(['slice', 'list', 'bool', 'array'])
        if kind == 'slice':
            item = slice(rng.choice([None, rng.randint(-n, n)]),
                         rng.choice([None, rng.randint(-n, n)]),
                         rng.choice([None, 1, 2, -1]))
            R = list(range(n))[item]
        elif kind == 'bool':
            item = np.array([rng.random() < .6 for _ in range(n)], bool)
            R = [k for k in range(n) if item[k]]
        else:
            R = [rng.randrange(n) for _ in range(rng.randint(1, n + 1))]
            item = R if kind == 'list' else np.array(R)
        with quiet():
            cb = self.slots[i][item]
        dst, _ = self.put(cb)
        self.emit('Index', i, dst, R=[k + 1 for k in R], op=kind)

    def row(self, i):
        rng, n = self.rng, self.rows(i)
        k = rng.randrange(-n, n)
        with quiet():
            tr = self.slots[i][rng.choice([int, np.int64])(k)]
        assert isinstance(tr, CorrTrace)
        self.emit('Row', i, i, R=[k % n + 1], res=observe_trace(tr))

    def split(self, i):
        rng, n = self.rng, self.rows(i)
        R = None
        if rng.random() < .5:
            R = [rng.randrange(n) for _ in range(rng.randint(1, n))]
        with quiet():
            st = self.slots[i].create_corr_stream(R)
            cb = st.create_corr_bulk(inplace=rng.random() < .5)
        dst, _ = self.put(cb)
        self.emit('Split', i, dst,
                  R=[k + 1 for k in (range(n) if R is None else R)])

    def copy(self, i):
        cb = self.slots[i].copy()
        dst, _ = self.put(cb)
        self.emit('Copy', i, dst)

    def save(self, i):
        p = os.path.join(self.root, 'x.npz')
        a = self.slots[i]
        with quiet():
            a.save(p)
            b = read_corr_bulk(p)
        os.unlink(p)
        diff = sorted(
            k for k in set(a.stats) | set(b.stats)
            if repr(a.stats.get(k)) != repr(b.stats.get(k))
            and repr(np.asarray(a.stats.get(k))) != repr(
                np.asarray(b.stats.get(k))))
        dst, _ = self.put(b)
        self.emit('Save', i, dst, same=not diff, diff=diff)

    def bins(self, i):
        rng = self.rng
        T = self.times(self.slots[i])
        pick = (lambda: rng.choice(T) + rng.choice([0, 0, 0, 1, -1, 250]))
        n = rng.choice([1, 2, 3, 4, 6])
        kind = rng.choice(['grid', 'grid', 'random'])
        if kind == 'grid':
            inc = rng.choice([500, 1000, 1500, 3000])
            s = pick() - rng.choice([0, 500, 1000])
            S = [s + k * inc for k in range(n)]
        else:
            S = [pick() for _ in range(n)]
        E = []
        if rng.random() < .5 or kind == 'random':
            w = rng.choice([0, 500, 1000, 1500, 3000])
            E = [x + (w or 500 * rng.randint(1, 5)) for x in S]
        return S, E

    def resample(self, i):
        rng = self.rng
        S, E = self.bins(i)
        if not E and (len(S) == 1 and self.rows(i) == 0):
            return
        ok, err = True, ''
        f = (lambda x: [BASE + y / 10 for y in x])
        if rng.random() < .15:
            f = (lambda x: [(BASE + y / 10).timestamp for y in x])
        g = rng.choice([list, np.array])
        i0 = bytes(ident(self.slots[i].stats))
        with quiet(), np.errstate(all='ignore'):
            try:
                if E or rng.random() < .3:
                    self.slots[i].resample(g(f(S)), g(f(E)))
                else:
                    self.slots[i].resample(g(f(S)))
            except Exception as x:
                ok, err = False, repr(x)
        self.emit('Resample', i, i, ok, err, S=S, E=E, id=list(i0))

    def refs(self, i):
        rng, cb = self.rng, self.slots[i]
        method = rng.choice(['mean', 'median'])
        single = rng.random() < .3
        lst = rng.random() < .4
        inc = [rng.choice([1000, 2000, 3000, 6000]) for _ in range(
            rng.randint(1, 3) if lst else 1)]
        days = [x / 864000 for x in inc]
        ok, err, r = True, '', []
        with quiet(), np.errstate(all='ignore'):
            try:
                if single:
                    r = rng.choice([
                        lambda: cb.extract_trace(method),
                        lambda: cb.extract_multi_trace(0, method)])()
                    r = np.atleast_2d(r)
                else:
                    r = cb.extract_multi_trace(
                        days if lst else days[0], method)
            except Exception as x:
                ok, err = False, repr(x)
        self.emit('Refs', i, i, ok, err, method=method, single=single,
                  list=lst, inc=inc, refs=samples(r))

    def other(self, i):
        rng = self.rng
        src = self.slots[i]
        n, c = src.data.shape
        dt = src.stats.delta
        span = c * dt
        ops = [
            ('normalize', lambda b: b.normalize(normtype=rng.choice(
                ['energy', 'absmax', 'abssum', 'max']))),
            ('clip', lambda b: b.clip(rng.choice([1., 2.]),
                                      rng.choice([0, 1, None]))),
            ('envelope', lambda b: b.envelope()),
            ('taper', lambda b: b.taper(rng.choice([0, .2, .4]) * span)),
            ('taper_center', lambda b: b.taper_center(
                rng.choice([0, .2, .5, .9]) * span)),
            ('filter', lambda b: b.filter((.3, .8))),
            ('correct_decay', lambda b: b.correct_decay()),
        ]
        if c > 3:
            ops.append(('smooth', lambda b: b.smooth(3, 'hanning', 0)))
        if n > 3:
            ops.append(('smooth', lambda b: b.smooth(3, 'flat', 1)))
        if not self.big:
            ops = [o for o in ops if o[0] not in ('filter', 'correct_decay')]
        if np.isnan(src.data).any() or HasNoBoth(src):
            ops = [o for o in ops if o[0] != 'correct_decay']
        op, f = rng.choice(ops)
        # on a copy of its own: samples of slices are views
        self.copy(i)
        i = self.ev[-1]['dst'] - 1
        ok, err = True, ''
        with quiet(), np.errstate(all='ignore'):
            try:
                f(self.slots[i])
            except Exception as x:
                ok, err = False, repr(x)
        self.emit('Other', i, i, ok, err, op=op)

    def rate(self, i):
        rng = self.rng
        if not self.big or self.slots[i].stats.npts < 20:
            return
        sr = self.slots[i].stats.sampling_rate
        f = sr / 2
        self.copy(i)
        i = self.ev[-1]['dst'] - 1
        ok, err = True, ''
        with quiet(), np.errstate(all='ignore'):
            try:
                self.slots[i].resample_time_axis(f)
            except Exception as x:
                ok, err = False, repr(x)
        self.emit('Rate', i, i, ok, err, dt=int(round(1000 / f)))

    def step(self, ops):
        if not self.slots or self.rng.random() < .08:
            return self.new()
        i = self.rng.randrange(len(self.slots))
        if self.rows(i) == 0:
            # an empty slice; only a few operations make sense
            ops = [o for o in ops if o in (
                'trim', 'mirror', 'copy', 'slice', 'resample')] or ['copy']
        getattr(self, self.rng.choice(ops))(i)


def HasNoBoth(cb):
    s = cb.stats
    k = s.start_lag / s.delta
    return s.start_lag >= 0 or s.end_lag <= 0 or abs(k - round(k)) > 1e-3
