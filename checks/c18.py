"""
C18: gaps, masks, tapers and discarded traces. Traces.tla defines what each
step leaves of a stream (TracesMC: all sequences of steps on small streams;
unaltered outside, marked data never come back). Real calls on random streams
are recorded and compared sample by sample.
"""
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.core.inventory import (
    Channel, Inventory, Network, Response, Site, Station)

from seismic.correlate import preprocessing_stream as ppst
from seismic.correlate.correlate import preprocess_stream, st_to_np_array
from seismic.utils import miic_utils as mu

from vf import quiet

BASE = UTCDateTime(2020, 2, 28, 23, 59, 40)
M, S = -2000000000, 600
IDS = ['A.S..HHE', 'A.S..HHZ', 'A.S1..HHZ', 'B.S..HHZ']


class Store:
    inventory = None
    rclient = None


class Gen:
    def __init__(self, rng, ev):
        self.rng, self.ev = rng, ev
        # length of a tick in seconds; all times are exact
        self.tick = rng.choice([.25, .5, 1, 2])

    # -- streams ------------------------------------------------------------
    def values(self, n):
        rng = self.rng
        x = [rng.randint(-20, 20) for _ in range(n)]
        if rng.random() < .1:
            x = [7] * n
        return x

    def gaps(self, n):
        """where data are missing"""
        rng = self.rng
        m = [False] * n
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4])):
            a = rng.choice([0, n, rng.randrange(n)])
            k = rng.choice([1, 1, 2, 3, 4, 6])
            for j in range(max(a - k if a == n else a, 0), min(a + k, n)):
                m[j] = True
        if rng.random() < .04:
            m = [True] * n
        return m

    def trace(self, i, d, t0, n, kind='any'):
        """kind: any, plain (no gaps), masked, nan"""
        rng = self.rng
        x = np.array(self.values(n), rng.choice([np.float32, np.float64]))
        m = np.array(self.gaps(n))
        if kind == 'any':
            kind = rng.choice(['plain', 'masked', 'masked', 'hard'])
        if kind == 'nan' or kind == 'either' and rng.random() < .5:
            x[m] = np.nan
        elif kind != 'plain' and (m.any() or rng.random() < .3):
            if rng.random() < .5:
                x[m] = 19
            x = np.ma.array(x, mask=m, hard_mask=kind == 'hard')
        n_, s, lo, c = IDS[i].split('.')
        return Trace(x, header=dict(
            network=n_, station=s, location=lo, channel=c,
            delta=d * self.tick, starttime=self.time(t0)))

    def time(self, t):
        return BASE + t * self.tick

    def stream(self, kind='any', d=4, n=None, count=None):
        rng = self.rng
        st = Stream()
        for i in rng.sample(range(len(IDS)), count or rng.randint(1, 3)):
            k = n or rng.choice([1, 2, 3, 4, 5, 8, 13, 20])
            st.append(self.trace(i, d, d * rng.randint(0, 9), k, kind))
        return st

    def pieces(self, d=4, overlap=True, maxn=20, nan=.2):
        """several unmasked traces of one channel"""
        rng = self.rng
        st = Stream()
        for i in rng.sample(range(len(IDS)), rng.randint(1, 3)):
            n = rng.randint(2, maxn)
            tr = self.trace(i, d, d * rng.randint(0, 9), n,
                            'nan' if rng.random() < nan else 'plain')
            m = self.gaps(n)
            k = 0
            while k < n:
                if m[k]:
                    k += 1
                    continue
                e = k
                while e < n and not m[e] and (
                        e == k or rng.random() < .93):
                    e += 1
                a = k
                if overlap and k and not m[k - 1] and rng.random() < .5:
                    a = k - 1
                t = tr.copy()
                t.data = tr.data[a:e].copy()
                t.stats.starttime = tr.stats.starttime + a * tr.stats.delta
                st.append(t)
                k = e
        if rng.random() < .3:
            rng.shuffle(st.traces)
        return st

    # -- records ------------------------------------------------------------
    def rec(self, st):
        out = []
        for tr in st:
            data = np.ma.filled(np.ma.asarray(tr.data).astype(float), np.nan)
            t = (tr.stats.starttime - BASE) / self.tick
            d = tr.stats.delta / self.tick
            out.append(dict(
                id=IDS.index(tr.id) + 1,
                t0=int(round(t)) if abs(t - round(t)) < 1e-3 else -9999,
                d=int(round(d)),
                x=[M if np.isnan(v) else int(round(v * S)) for v in data]))
        return out

    def call(self, ev, st, f, **k):
        before = self.rec(st)
        with quiet():
            try:
                out = f(st)
                out = st if out is None else out
                ok, err, out = True, '', self.rec(out)
            except Exception as x:
                ok, err, out = False, repr(x), []
        self.ev.append(dict(ev=ev, st=before, out=out, ok=ok, err=err, **k))

    # -- calls --------------------------------------------------------------
    def intervals(self, a, b):
        rng = self.rng
        ivs = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            if ivs and rng.random() < .3:
                # adjacent
                s = ivs[-1][1] + rng.choice([0, 1, 4])
            else:
                s = rng.randint(a - 12, b + 6)
                if rng.random() < .5:
                    s -= s % 4
            w = rng.choice([0, 1, 3, 4, 4, 8, 10, 16, 30])
            if rng.random() < .1:
                s, w = a - rng.choice([0, 1, 4]), b - a + 8
            ivs.append([s, s + w])
        rng.shuffle(ivs)
        return ivs

    def bounds(self, st):
        return (int(round(min(
            tr.stats.starttime - BASE for tr in st) / self.tick)),
            int(round(max(tr.stats.endtime - BASE for tr in st) / self.tick)))

    def mark(self):
        rng = self.rng
        st = self.stream(d=rng.choice([4, 4, 8]))
        ivs = self.intervals(*self.bounds(st))
        rev = rng.random() < .3
        starts = [self.time(a) for a, b in ivs]
        if ivs and rng.random() < .3:
            w = ivs[0][1] - ivs[0][0]
            ivs = [[a, a + w] for a, b in ivs]
            kw = dict(masklen=w * self.tick)
        else:
            kw = dict(ends=[self.time(b) for a, b in ivs])
        self.call('Mark', st, lambda s: ppst.stream_mask_at_utc(
            s, starts, reverse=rev, **kw), ivs=ivs, reverse=rev)
        if rng.random() < .3:
            # what is marked is not interpolated later on
            mx = rng.choice([-1, 1, 3])
            self.call('Interpolate', st, lambda s: mu.interpolate_gaps_st(
                s, mx), max=mx, hard=True, int=False)

    def interpolate(self):
        rng = self.rng
        hard = rng.random() < .2
        st = self.stream('hard' if hard else 'either')
        isint = not hard and rng.random() < .15
        if isint:
            for tr in st:
                if not np.ma.isMaskedArray(tr.data):
                    tr.data = np.ma.masked_invalid(tr.data)
                tr.data = np.ma.array(
                    tr.data.filled(0).astype(np.int32),
                    mask=np.ma.getmaskarray(tr.data))
        mx = rng.choice([-1, 0, 1, 2, 3, 5])
        self.call('Interpolate', st, lambda s: mu.interpolate_gaps_st(
            s, mx), max=mx, hard=hard, int=isint)

    def handle(self):
        rng = self.rng
        if rng.random() < .5:
            st = self.pieces()
        else:
            st = self.stream('either')
        mx = rng.choice([-1, 0, 1, 2, 3])
        n = rng.choice([0, 1, 1, 2, 3, 4])
        retain = rng.choice([0, 0, 4, 8, 10, 12, 16])
        self.call('Gaps', st, lambda s: mu.gap_handler(
            s, mx, retain * self.tick, n * 4 * self.tick),
            max=mx, retain=retain, n=n)

    def discard(self):
        rng = self.rng
        st = self.stream(d=rng.choice([4, 8]))
        if len(st) and rng.random() < .3:
            # the same trace twice
            st.append(st[0].copy())
        ln = rng.choice([0, 3, 4, 8, 12, 20, 32, 31, 33, 80])
        self.call('Discard', st, lambda s: mu.discard_short_traces(
            s, ln * self.tick), len=ln)

    def valid(self):
        st = self.stream('masked')
        if self.rng.random() < .7:
            for _ in range(2):
                tr = self.rng.choice(st)
                tr.data = np.ma.masked_all(tr.stats.npts)
        self.call('Valid', st, mu.get_valid_traces)

    def taper(self):
        rng = self.rng
        masked = rng.random() < .5
        st = self.stream()
        n = rng.choice([0, 1, 2, 3, 4, 5, 6])
        if rng.random() < .2:
            st = self.stream('plain')
            for tr in st:
                tr.data = tr.data.astype(rng.choice([np.int32, np.int64]))
        self.call('Taper', st, lambda s: ppst.cos_taper_st(
            s, n * 4 * self.tick, False, masked), n=n, masked=masked)

    def detrend(self):
        ty = self.rng.choice(['demean', 'linear', 'simple'])
        st = self.stream()
        if ty == 'simple' and any(
                len(t.data) == 1 for t in st.split()):
            return
        self.call('Detrend', st, lambda s: ppst.detrend_st(s, ty), type=ty)

    def cut(self):
        rng = self.rng
        st = self.stream(n=rng.choice([6, 8, 13]))
        a, b = rng.choice([0, 4, 8, 12]), rng.choice([0, 4, 8])
        self.call('Cut', st, lambda s: mu.trim_stream_delta(
            s, a * self.tick, b * self.tick), a=a, b=b)

    def decimate(self):
        rng = self.rng
        if rng.random() < .5:
            st = self.stream('plain', d=rng.choice([4, 8]))
        else:
            st = Stream()
            for d in rng.sample([2, 4, 8, 16], rng.randint(1, 3)):
                st += self.stream('plain', d=d, count=1)
        d = rng.choice([4, 8, 16])
        self.call('Decimate', st, lambda s: mu.resample_or_decimate(
            s, 1 / (d * self.tick), filter=False), d=d)

    def polarity(self):
        rng = self.rng
        st = self.stream()
        down, nets = [], []
        for i, x in enumerate(IDS, 1):
            n, s, lo, c = x.split('.')
            dip = rng.choice([-90, 90])
            if dip > 0 and c == 'HHZ':
                down.append(i)
            nets.append(Network(n, stations=[Station(
                s, 1, 2, 3, site=Site('x'), channels=[Channel(
                    c, lo, 1, 2, 3, 0, azimuth=0, dip=dip,
                    response=Response())])]))
        rng.shuffle(nets)
        inv = Inventory(networks=nets, source='x')
        self.call('Polarity', st, lambda s: mu.correct_polarity(s, inv),
                  down=down)

    def filter(self):
        st = self.stream('any', n=self.rng.choice([5, 20]))
        alone = []
        for tr in self.rec(st):
            y = list(tr['x'])
            k = 0
            while k < len(y):
                if y[k] == M:
                    k += 1
                    continue
                e = k
                while e < len(y) and y[e] != M:
                    e += 1
                t = Trace(np.array(y[k:e], float) / S,
                          header=dict(delta=tr['d'] * self.tick))
                t.filter('lowpass', freq=.05 / self.tick)
                y[k:e] = [int(round(v * S)) for v in t.data]
                k = e
            if any(v != M for v in y):
                alone.append(dict(tr, x=y))
        self.call('Filter', st, lambda s: ppst.stream_filter(
            s, 'lowpass', dict(freq=.05 / self.tick)), alone=alone)

    def matrix(self):
        st = self.stream()
        for tr in st:
            tr.data = tr.data.astype(np.float32)
        if self.rng.random() < .6:
            with quiet():
                ppst.stream_mask_at_utc(st, *zip(*(
                    [self.time(x) for x in iv]
                    for iv in self.intervals(*self.bounds(st)) or [[0, 0]])))
        npts = max(tr.stats.npts for tr in st)
        before = self.rec(st)
        with quiet():
            try:
                A, _ = st_to_np_array(st, npts)
                ok, err = True, ''
                rows = [[M if np.isnan(v) else int(round(v * S)) for v in r]
                        for r in A]
            except Exception as x:
                ok, err, rows = False, repr(x), []
        self.ev.append(dict(
            ev='Matrix', st=before, rows=rows, npts=npts, ok=ok, err=err))

    def prepare(self):
        rng = self.rng
        st = self.pieces(overlap=False, nan=0)
        for tr in st:
            tr.data = tr.data.astype(np.float32)
        if not st.count():
            return
        n = rng.choice([0, 0, 1, 2])
        a, b = self.bounds(st)
        a, b = a - 4 * rng.choice([0, 1, 5]), b + 4 * rng.choice([0, 1, 5])
        if rng.random() < .3:
            a, b = a + 20, b + 20
        if rng.random() < .3:
            a, b = a - 20, max(b - 20, a)
        short = rng.choice([0, 4, 6, 8, 12])
        marks, pre = [], None
        if rng.random() < .6:
            ivs = self.intervals(a, b)
            rev = rng.random() < .2
            marks = [dict(ivs=ivs, reverse=rev)]
            pre = [dict(
                function='seismic.correlate.preprocessing_stream.'
                'stream_mask_at_utc', args=dict(
                    starts=[self.time(x) for x, y in ivs],
                    ends=[self.time(y) for x, y in ivs], reverse=rev))]
        self.call('Prepare', st, lambda s: preprocess_stream(
            s, Store(), self.time(a), self.time(b), n * 4 * self.tick,
            False, dict(corr_len=20 * short * self.tick),
            preProcessing=pre), a=a, b=b, n=n, short=short, marks=marks)


def calls(ctx, rng, ev):
    for _ in range(8):
        g = Gen(rng, ev)
        ops = [g.mark] * 4 + [g.interpolate] * 3 + [g.handle] * 4 + [
            g.taper] * 2 + [g.matrix] * 2 + [g.prepare] * 4 + [
            g.discard, g.valid, g.detrend, g.cut, g.decimate, g.polarity,
            g.filter]
        for _ in range(10):
            rng.choice(ops)()


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('TracesMC', ctx.pick('Traces_mc.cfg', 'Traces_big.cfg'))
    ev = ctx.pmap(calls, ctx.pick(64, 2000))
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('TracesTrace', ev, 'PairsTrace.cfg', describe, chunk=500)
    ctx.assumptions = [
        'the samples of one channel lie on one grid; overlapping pieces are '
        'equal', 'tapers of up to 6 samples, gaps of up to 6 samples']
