"""
C25: spectrograms have one column for each complete window, made of its own
data. Spectra.tla says which windows there are; SpectraMC collects them from
several processes. A real Store_Client computes spectrograms of an archive
whose data has another signal in each tick, on several processes.
"""
import os
import shutil

import numpy as np
from obspy import Trace, UTCDateTime

import seismic.utils.raw_analysis as ra
from seismic.trace_data.waveform import Store_Client

import fakempi
from vf import quiet

TICK = 64
CODES = 8


def wave(c, k, sr):
    """signal c of tick k"""
    t = k*TICK + np.arange(TICK*sr)/sr
    return 1000*np.sin(2*np.pi*c/16*t + c)


class World:
    def __init__(self, ctx, rng, ev):
        self.rng, self.ev = rng, ev
        self.root = ctx.dir()
        self.n = rng.randint(4, 22)
        # the day ends somewhere
        self.base = UTCDateTime(2020, 12, 31, 23, 50) + 8*rng.randint(0, 100)
        if rng.random() < .3:
            self.base += .5
        self.sr = rng.choice([2, 2, 4])
        code, prev = [], 0
        for _ in range(self.n):
            prev = rng.choice([c for c in range(1, CODES + 1) if c != prev])
            code.append(prev)
        if rng.random() < .6:
            # gaps
            for _ in range(rng.randint(1, 3)):
                i = rng.randrange(self.n)
                for k in range(i, min(self.n, i + rng.choice([1, 1, 2, 5]))):
                    code[k] = 0
        if rng.random() < .2:
            # sampled too slowly
            code[rng.randrange(self.n)] = -1
        # a single sample at the end
        code.append(rng.choice([0, 9]))
        self.code = code

    def write(self):
        os.makedirs(os.path.join(self.root, 'mseed'))
        k = 0
        while k <= self.n:
            j = k
            while j <= self.n and (self.code[j] > 0) == (
                    self.code[k] > 0) and (self.code[j] == 0) == (
                        self.code[k] == 0):
                j += 1
            if self.code[k]:
                sr = self.sr if self.code[k] > 0 else .5
                x = np.concatenate([
                    wave(max(c, 1), i, sr) if i < self.n else
                    np.zeros(1) for i, c in enumerate(self.code) if k <= i < j
                ])
                self.store(Trace(x.astype(np.float32), header=dict(
                    network='A', station='S', location='', channel='HHZ',
                    sampling_rate=sr, starttime=self.base + k*TICK)))
            k = j

    def store(self, tr):
        # day by day
        t = tr.stats.starttime
        while t <= tr.stats.endtime:
            nxt = UTCDateTime(t.year, t.month, t.day) + 86400
            x = tr.slice(t, nxt - tr.stats.delta/2)
            p = os.path.join(self.root, 'mseed', str(t.year), 'A', 'S',
                             'HHZ.D')
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, 'A.S..HHZ.D.%d.%03d' % (
                    t.year, t.julday)), 'ab') as f:
                x.write(f, format='MSEED')
            t = x.stats.endtime + tr.stats.delta

    def spectrum(self):
        rng = self.rng
        L = rng.choice([2, 2, 4])
        a = rng.choice([0, 0, rng.randint(0, self.n - 1)])
        e = rng.choice([self.n, self.n, rng.randint(a + 1, self.n)])
        inc = rng.choice([L, 2*L, L + rng.randint(0, 5), 3*L, 100])
        p = rng.choice([1, 1, 2, 3])
        client = Store_Client(None, self.root, read_only=True)
        real, ra.MPI = ra.MPI, fakempi.MPI
        try:
            with quiet():
                res, err = fakempi.run(p, lambda r: client.compute_spectrogram(
                    'A', 'S', 'HHZ', self.base + a*TICK, self.base + e*TICK,
                    L*TICK, 1, read_increment=inc*TICK,
                    remove_response=False))
        finally:
            ra.MPI = real
        none = all(x is None or all(y is None for y in x) for x in res[1:])
        times, power, axis = [], [], True
        if not err:
            f, t, S = res[0]
            axis = bool(S.shape == (len(f), len(t)) and abs(
                f[-1] - 1) < 1e-6 and abs(f[0] - .001) < 1e-9
                and (np.diff(f) > 0).all())
            for k, x in enumerate(t):
                y = (UTCDateTime(x) - self.base)/TICK
                times.append(int(round(y)) if abs(y - round(y)) < 1e-4
                             else -1)
                q = np.array([S[abs(f - c/16) < .02, k].max()
                              for c in range(1, CODES + 1)])
                power.append(np.round(1000*q/q.max()).astype(int).tolist())
        self.ev.append(dict(
            ev='Spectrum', code=self.code, a=a, e=e, inc=inc, L=L, p=p,
            ok=not err, err=repr(err), none=none, times=times, power=power,
            axis=axis))


def histories(ctx, rng, ev):
    w = World(ctx, rng, ev)
    w.write()
    ev.append(dict(ev='Reset', about=repr((w.base, w.sr))))
    for _ in range(3):
        w.spectrum()
    shutil.rmtree(w.root, ignore_errors=True)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('SpectraMC', ctx.pick('Spectra_mc.cfg', 'Spectra_big.cfg'),
              workers=8)
    ev = ctx.pmap(histories, ctx.pick(96, 1500))
    ctx.cov['calls'] = dict(
        spectra=sum(e['ev'] == 'Spectrum' for e in ev),
        columns=sum(len(e.get('times', ())) for e in ev))
    ctx.validate('SpectraTrace', ev, 'PairsTrace.cfg', describe, chunk=400)
    ctx.assumptions = [
        'one channel; signals of one of eight frequencies in each tick',
        'windows of 128 and 256 s at 2 Hz, aligned with the samples']
