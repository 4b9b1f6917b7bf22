"""
C21: matrix preprocessing treats every trace independently. Preproc.tla
defines each step as a function of one row (joint normalisation: three);
PreprocMC applies all sequences of steps to all partitions of small matrices.
Real steps run on random matrices, on selections and orders of their rows, and
in sequence; real correlation runs with all and with some of the channels.
"""
import os
import shutil

import numpy as np

import seismic.correlate.preprocessing_fd as fd
import seismic.correlate.preprocessing_td as td

import c07
import corrdrive as cd
import projects as pj
from vf import quiet

M, S = -2000000000, 100


def enc(x):
    """Results as integers."""
    x = np.asarray(x, dtype=np.float64)
    fin = np.isfinite(x) & (np.abs(x) < 1e7)
    y = np.full(x.shape, M, dtype=np.int64)
    y[fin] = np.round(x[fin]*S).astype(np.int64)
    return y.tolist()


def encc(x):
    return np.stack((np.array(enc(np.real(x))), np.array(enc(np.imag(x)))),
                    axis=-1).tolist() if len(x) else []


class Gen:
    def __init__(self, rng, ev):
        self.rng, self.ev = rng, ev

    def matrix(self, r=None, n=None, dtype=None, lo=2):
        rng = self.rng
        r = r or rng.randint(1, 6)
        n = n or rng.randint(lo, 16)
        A = []
        for _ in range(r):
            x = [rng.randint(-20, 20) for _ in range(n)]
            k = rng.random()
            if k < .1:
                x = [0]*n
            elif k < .15:
                x = [7]*n
            elif k < .35:
                # a burst
                x = [v//5 for v in x]
                x[rng.randrange(n)] = rng.choice([-20, 20])
            elif k < .45:
                a = rng.randrange(n)
                x[a:a + rng.randint(1, 5)] = [0]*len(x[a:a + rng.randint(
                    1, 5)])
                x = (x + [0]*n)[:n]
            A.append(x)
        return A, dtype or rng.choice([np.float32, np.float64])

    def subsets(self, r, g=1):
        """selections of groups of g rows, in any order"""
        rng = self.rng
        q = r//g
        sel = [[i] for i in range(q)]
        rng.shuffle(sel)
        sel = sel[:2]
        o = list(range(q))
        rng.shuffle(o)
        sel.append(o)
        sel.append(o[:rng.randint(1, q)])
        return [[g*i + j for i in s for j in range(g)] for s in sel]

    def step(self, name, f, A, dtype, encode, g=1, single=True, deg=None,
             **kw):
        """
        f(matrix) on all rows and on some of them. deg: power of the amplitude
        of the result in that of the data
        """
        def call(rows, scale=1, loud=[]):
            B = (np.array(rows, dtype=dtype)*scale).astype(dtype)
            if len(loud):
                B = np.concatenate((B, np.array(loud, dtype=dtype)*2**20))
                B = B.astype(dtype)
            try:
                with quiet():
                    C = f(B)
                    if len(loud):
                        C = C[:len(rows)]
                    return True, '', encode(C*float(scale)**-(deg or 0))
            except Exception as e:
                return False, '%s: %s' % (type(e).__name__, e), []
        ok, err, out = call(A)
        some = []
        for rows in self.subsets(len(A), g):
            o, er, res = call([A[i] for i in rows])
            some.append(dict(rows=[i + 1 for i in rows], ok=o, err=er,
                             out=res))
        # next to much larger amplitudes
        q = list(range(len(A)//g))
        self.rng.shuffle(q)
        rows, rest = ([g*i + j for i in x for j in range(g)]
                      for x in (q[:1], q[1:] or q))
        o, er, res = call([A[i] for i in rows],
                          loud=[A[i] for i in rest])
        some.append(dict(rows=[i + 1 for i in rows], ok=o, err=er, out=res))
        if deg is not None:
            o, er, res = call(A, 2.**self.rng.choice([-50, -20, 10]))
            some.append(dict(rows=list(range(1, len(A) + 1)), ok=o, err=er,
                             out=res))
        if single and self.rng.random() < .3:
            # one trace as a vector
            i = self.rng.randrange(len(A))
            o, er, res = call(A[i])
            some.append(dict(rows=[i + 1], ok=o, err=er, out=[res]))
        a = np.array(A)
        self.ev.append(dict(
            ev='Step', step=name, ok=ok, err=err, out=out, some=some,
            complex=encode is encc,
            A=np.stack((a.real, a.imag), -1).astype(int).tolist()
            if a.dtype.kind == 'c' else A, **kw))

    # -- time domain --------------------------------------------------------
    def sign(self):
        A, t = self.matrix()
        self.step('sign', lambda B: td.signBitNormalization(B, {}, {}), A, t,
                  enc, deg=0)

    def clip(self):
        A, t = self.matrix()
        f2 = self.rng.choice([1, 2, 3, 4, 6])
        self.step('clip', lambda B: td.clip(B, {'std_factor': f2/2}, {}), A,
                  t, enc, single=False, f2=f2, deg=1)

    def detrend(self):
        A, t = self.matrix(lo=3)
        typ = self.rng.choice(['linear', 'constant'])
        args = {'type': typ}
        m = self.rng.choice(['', 'qr', 'scipy'])
        if m:
            args['method'] = m
        if typ == 'linear' and self.rng.random() < .3:
            del args['type']
        self.step('linear' if typ == 'linear' else 'demean',
                  lambda B: td.detrend(B, args, {}), A, t, enc,
                  single=m != 'scipy', deg=1)

    def std(self):
        A, t = self.matrix()
        self.step('std', lambda B: td.normalizeStandardDeviation(B, {}, {}),
                  A, t, enc, single=False,
                  # constant traces are kept
                  deg=None if any(len(set(x)) == 1 and x[0] for x in A)
                  else 0)

    def tdnorm(self):
        sr = self.rng.choice([1, 2, 10.])
        A, t = self.matrix()
        w = self.rng.randint(1, min(9, len(A[0])))
        args = {'windowLength': (w - self.rng.choice([0, .3]))/sr,
                'filter': self.rng.choice([None, {}, False])}
        self.step('tdnorm', lambda B: td.TDnormalization(
            B, args, {'sampling_rate': sr}), A, t, enc, w=w, deg=0)

    def mute(self):
        rng = self.rng
        sr = rng.choice([1, 4, 20])
        A, t = self.matrix(n=rng.choice([None, None, 16, 16]))
        w = rng.randint(1, 7)
        args = {'taper_len': w/sr, 'extend_gaps': rng.random() < .6}
        f2, level = -1, 0
        k = rng.random()
        if k < .5:
            level = args['threshold'] = rng.choice([0, 4, 8, 19, 20])
            if rng.random() < .3:
                args['std_factor'] = 1
        elif k < .8:
            f2 = rng.choice([1, 2, 3, 5])
            args['std_factor'] = f2/2
        else:
            f2 = 2
        self.step('mute', lambda B: td.mute(B, args, {'sampling_rate': sr}),
                  A, t, enc, single=False, w=w, f2=f2, level=level,
                  deg=None if 'threshold' in args else 1,
                  extend=args['extend_gaps'])

    def taper(self):
        A, t = self.matrix(lo=4)
        p = self.rng.choice([.1, .2, .3, .5, .8])
        self.step('taper', lambda B: td.taper(
            B, {'type': 'cosine_taper', 'p': p}, {}), A, t, enc,
            single=False, deg=1, m=int(len(A[0])*p/2 + .5))

    def pad(self):
        rng = self.rng
        typ = rng.choice(['nextFastLen', 'avoidWrapAround',
                          'avoidWrapFastLen'])
        lag2 = rng.randint(0, 30)
        sr = rng.choice([1, 1., 2, 4., .5])
        A, t = self.matrix(n=rng.randint(1, 40))
        par = {'sampling_rate': sr, 'lengthToSave': lag2/2/sr}
        if rng.random() < .3:
            def f(B):
                return td.zeroPadding(B.T, {'type': typ}, par, axis=0).T
        else:
            def f(B):
                return td.zeroPadding(B, {'type': typ}, par)
        self.step('pad', f, A, t, enc, single=False, type=typ, lag2=lag2,
                  deg=1)

    def tdargs(self, sr):
        rng = self.rng
        k = rng.random()
        a = dict(type='bandpass', freqmin=sr*.1, freqmax=sr*.3) if k < .6 \
            else dict(type='highpass', freq=sr*.1) if k < .8 \
            else dict(type='lowpass', freq=sr*.2)
        a['corners'] = rng.choice([1, 2, 4])
        if rng.random() < .5:
            a['zerophase'] = rng.random() < .7
        return a

    def filter(self):
        sr = self.rng.choice([1, 5., 20])
        args = self.tdargs(sr)
        A, t = self.matrix(lo=4)
        self.step('filter', lambda B: td.TDfilter(
            B, args, {'sampling_rate': sr}), A, t, enc, deg=1)

    # -- frequency domain -----------------------------------------------------
    def spectra(self, r):
        rng = self.rng
        n = rng.randint(2, 9)
        B = []
        for _ in range(r):
            m = rng.choice([1, 20, 20])
            z = [complex(rng.randint(-m, m), rng.randint(-m, m))
                 for _ in range(n)]
            k = rng.random()
            if k < .15:
                z = [0j]*n
            elif k < .4:
                z[rng.randrange(n)] = 0j
            B.append(z)
        return B, rng.choice([np.complex64, np.complex128])

    def white(self):
        rng = self.rng
        joint = rng.random() < .5
        B, t = self.spectra(rng.choice([3, 6, 9]) if joint
                            else rng.randint(1, 5))
        args = {'joint_norm': joint}
        if not joint and rng.random() < .5:
            args = {}
        self.step('white', lambda C: fd.spectralWhitening(C, args, {}), B, t,
                  encc, 3 if joint else 1, single=False, joint=joint,
                  deg=0)

    def fdfilter(self):
        rng = self.rng
        B, t = self.spectra(rng.randint(1, 5))
        while len(B[0]) < 5:
            B, t = self.spectra(rng.randint(1, 5))
        f = sorted(rng.sample(range(len(B[0])), 4))
        if rng.random() < .3:
            f[2] = f[1]
        df = rng.choice([1, .5, .02])
        args = {'flimit': [x*df for x in f]}
        par = {'freqs': np.arange(len(B[0]))*df}
        self.step('fdfilter', lambda C: fd.FDfilter(C, args, par), B, t, encc,
                  single=False, corners=f, deg=1)

    def fdsign(self):
        A, t = self.matrix()
        n = len(A[0])
        sr = self.rng.choice([1, 10, .5, 25.])
        par = {'freqs': np.fft.rfftfreq(n, 1/sr), 'sampling_rate': sr}

        def f(B):
            C = np.fft.rfft(B, axis=1)
            if t == np.float32:
                C = C.astype(np.complex64)
            return np.fft.irfft(fd.FDsignBitNormalization(C, {}, par), n)
        self.step('fdsign', f, A, t, enc, single=False)

    # -- sequences ----------------------------------------------------------
    def chain(self):
        rng = self.rng
        sr = rng.choice([1, 5.])
        par = {'sampling_rate': sr, 'lengthToSave': 3/sr}
        A, t = self.matrix(n=rng.randint(8, 30))
        steps = [
            (td.detrend, {'type': 'linear'}), (td.detrend, {
                'type': 'constant', 'method': 'scipy'}),
            (td.clip, {'std_factor': 1.5}),
            (td.mute, {'taper_len': 3/sr, 'extend_gaps': True,
                       'std_factor': 1.5}),
            (td.mute, {'taper_len': 2/sr, 'extend_gaps': False,
                       'filter': self.tdargs(sr)}),
            (td.normalizeStandardDeviation, {}),
            (td.taper, {'type': 'cosine_taper', 'p': .3}),
            (td.TDnormalization, {'windowLength': 3/sr, 'filter': None}),
            (td.TDnormalization, {'windowLength': 5/sr,
                                  'filter': self.tdargs(sr)}),
            (td.TDfilter, self.tdargs(sr)),
            (td.zeroPadding, {'type': 'avoidWrapFastLen'})]
        seq = [rng.choice(steps) for _ in range(rng.randint(1, 4))]
        spec = rng.random() < .4
        deg = 0 if spec or any(g in (
            td.normalizeStandardDeviation, td.TDnormalization)
            for g, _ in seq) else 1
        if deg == 0 and any(len(set(x)) == 1 and x[0] for x in A):
            # constant traces are kept by some of them
            deg = None

        def f(B):
            for g, args in seq:
                B = g(B, args, par)
            if spec:
                n = B.shape[1]
                C = np.fft.rfft(np.nan_to_num(B), axis=1)
                C = fd.spectralWhitening(C, {}, {})
                B = np.fft.irfft(C, n)
            return B
        self.step('chain', f, A, t, enc, single=False, deg=deg,
                  about=repr((seq, spec)))


STEPS = ['sign', 'clip', 'detrend', 'std', 'tdnorm', 'mute', 'taper', 'pad',
         'filter', 'white', 'fdfilter', 'fdsign', 'chain', 'chain']


def calls(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for _ in range(24):
        getattr(g, rng.choice(STEPS))()


def pairs(ctx, rng, ev):
    """Correlations of some of the channels, with and without the others."""
    cfg = pj.config(rng, method=rng.choice(
        ['betweenStations'] * 3 + ['autoComponents', 'allCombinations',
                                   'allSimpleCombinations']))
    for k in c07.STEPS:
        if rng.random() < .7:
            cfg[k] = rng.choice(c07.STEPS[k])
    end = cfg['start'] + cfg['inc']
    chans = pj.network(rng, cfg, end, rng.choice([2, 3, 4]), (1, 2),
                       holes=.5)
    p = cd.Project(ctx.dir(), cfg, [])
    kw = dict(subdiv=rng.random() < .3)

    def results(chs):
        shutil.rmtree(p.corr, ignore_errors=True)
        p.store(chs)
        err = p.run(end, **kw)
        res = p.results()
        for r in res:
            x = r['k'].split(':', 1)[1].split('/')
            n, s, c = (y.split('-') for y in x[1:4])
            r['a'], r['b'] = ('.'.join((n[i], s[i], c[i])) for i in (0, 1))
        return err, res
    err, full = results(chans)
    ev.append(dict(ev='Reset', about=repr((
        cfg, kw, end, [vars(c) for c in chans]))))
    for _ in range(2):
        sub = rng.sample(chans, rng.randint(1, max(1, len(chans) - 1)))
        err1, some = results(sub)
        ev.append(dict(
            ev='Pairs', chans=['.'.join((c.n, c.s, c.c)) for c in sub],
            ok=not (err or err1), err=repr(err or err1), all=full,
            some=some))
    shutil.rmtree(p.root)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('PreprocMC', ctx.pick('Preproc_mc.cfg', 'Preproc_big.cfg'),
              workers=8)
    ev = ctx.pmap([(calls, ctx.pick(48, 1500)), (pairs, ctx.pick(32, 300))],
                  None)
    ctx.cov['calls'] = {
        k: sum(e.get('step', e['ev']) == k for e in ev) for k in sorted({
            e.get('step', e['ev']) for e in ev})}
    ctx.validate('PreprocTrace', ev, 'PairsTrace.cfg', describe, chunk=160)
    ctx.assumptions = [
        'samples are small integers (sequences of steps and filters: only '
        'independence of the other rows)',
        'the three traces of a joint normalisation follow each other']
