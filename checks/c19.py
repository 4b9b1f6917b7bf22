"""
C19: velocity and shift estimates report the true best match of each row.
Estimate.tla defines the similarity of a row with a modified reference over a
lag window, the windows and the modified references; EstimateMC changes rows
and samples of small matrices and checks what an estimate may depend on. Real
estimates of random integer matrices (stretching: of polynomials, which are
stretched by powers of two exactly) are checked by EstimateTrace.
"""
import glob
import os
import shutil
import tempfile
from copy import deepcopy

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrBulk
from seismic.monitor import post_corr_process as pcp
from seismic.monitor import stretch_mod as sm
from seismic.monitor.dv import DV, read_dv

import dbdrive as dd
from mondrive import MonProject, BASE
from vf import quiet

M = -2000000000
LN2 = np.log(2.)


def enc(x, f=1000000):
    x = np.asarray(x, dtype=np.float64)
    fin = np.isfinite(x) & (np.abs(x) < 2e9/f)
    y = np.full(x.shape, M, dtype=np.int64)
    y[fin] = np.round(x[fin]*f).astype(np.int64)
    return y.tolist()


def ints(A):
    return enc(A, 1)


def observe(corr, value, sim, axis, nw, nr):
    corr, value = (np.reshape(np.asarray(x, float), (nw, nr))
                   for x in (corr, value))
    if sim is not None and np.size(sim):
        sim = np.reshape(np.asarray(sim, float), (nr, -1, nw))
    else:
        sim = None
    out = []
    for w in range(nw):
        rows = []
        for i in range(nr):
            v = value[w, i]
            k = 0
            if not np.isnan(v):
                k = int(np.argmin(np.abs(axis - v))) + 1
                if abs(axis[k-1] - v) > 1e-9:
                    k = -1
            rows.append(dict(
                corr=enc(corr[w, i]), value=k,
                sims=enc(sim[i, :, w]) if sim is not None else []))
        out.append(rows)
    return out


class Gen:
    def __init__(self, rng, ev):
        self.rng, self.ev = rng, ev

    def rows(self, r, n, ref=None, nans=True):
        rng = self.rng
        A = []
        for _ in range(r):
            x = [float(rng.randint(-20, 20)) for _ in range(n)]
            k = rng.random()
            if k < .1:
                x = [0.]*n
            elif k < .15:
                x = [5.]*n
            elif k < .25 and nans:
                x = [np.nan]*n
            elif k < .35 and nans == 'some':
                a = rng.randrange(n)
                x[a:a+3] = [np.nan]*len(x[a:a+3])
            elif k < .55:
                # dead in a part
                a = rng.randrange(n)
                b = rng.randint(a, n)
                x[a:b] = [0.]*(b - a)
            elif k < .7 and ref is not None:
                f = rng.choice([1, 1, 2, -1])
                x = [f*v for v in ref]
            A.append(x)
        return np.array(A)

    def windows(self, n, sides, some=3):
        rng = self.rng
        room = n if sides == 'single' else (n - 1)//2 + 1
        tws = []
        for _ in range(rng.randint(1, some)):
            a = rng.randrange(room)
            b = rng.randint(a + 1, room)
            if rng.random() < .06:
                # beyond the trace
                b = room + rng.randint(1, n)
            tws.append(np.arange(a, b))
        return tws

    def call(self, fn):
        with quiet():
            try:
                return fn(), True, ''
            except Exception as e:
                return None, False, repr(e)

    def stats(self, r, n, lo, sr):
        s = CorrStats(dict(
            network='A-B', station='a-b', location='00-00',
            channel='HHZ-HHZ', sampling_rate=float(sr), npts=n))
        s.update(dict(
            corr_start=[dd.BASE + 60*i for i in range(r)],
            corr_end=[dd.BASE + 60*i + 60 for i in range(r)],
            start_lag=lo/sr))
        s['npts'] = n
        return s

    def bulk(self, A, lo, sr):
        r, n = A.shape
        hdr = dict(
            network='A-B', station='a-b', location=['00-00']*r,
            channel=['HHZ-HHZ']*r, sampling_rate=float(sr), npts=n,
            start_lag=lo/sr, ntrcs=r,
            corr_start=[dd.BASE + 60*i for i in range(r)],
            corr_end=[dd.BASE + 60*i + 60 for i in range(r)])
        return CorrBulk(A.copy(), hdr)

    # -- comparing with given references
    def estimate(self):
        rng = self.rng
        n, r, q = rng.randint(4, 24), rng.randint(1, 5), rng.randint(2, 5)
        ref = [float(rng.randint(-20, 20)) for _ in range(n)]
        refs = self.rows(q, n, ref, nans=False)
        mat = self.rows(r, n, refs[0], nans='some')
        sides = rng.choice(['both', 'left', 'right', 'single'])
        tws = self.windows(n, sides)
        axis = np.arange(q)*.1 - .2
        m0, r0 = mat.copy(), refs.copy()
        d, ok, err = self.call(lambda: sm.velocity_change_estimate(
            mat, tws, refs, axis, sides, return_sim_mat=True))
        self.ev.append(dict(
            ev='Estimate', mat=ints(m0), refs=ints(r0), sides=sides,
            tws=[t.tolist() for t in tws], ok=ok, err=err,
            obs=observe(d['corr'], d['value'], d['sim_mat'], axis, len(tws),
                        r) if ok else []))

    def shift(self):
        rng = self.rng
        n, r, R = rng.randint(5, 20), rng.randint(1, 4), rng.randint(1, 4)
        lo = 0
        kind = rng.choice(['direct', 'pcp', 'bulk'])
        sr = rng.choice([1, 2, 4, 5])
        sides = rng.choice(['both', 'single'])
        if kind != 'direct':
            n += 4
            lo = -rng.randint(4, n - 5)
            if sides == 'single' and rng.random() < .3:
                lo = -rng.randint(0, n - 5)
        base = [float(rng.randint(-20, 20)) for _ in range(n)]
        mat = self.rows(r, n, base, nans=True)
        for i in range(r):
            if rng.random() < .4:
                # a shifted copy
                m = rng.randint(-R, R)
                mat[i] = [base[max(0, min(n-1, k-m))] for k in range(n)]
        ref = np.array(base) if rng.random() < .7 else None
        part = n
        if kind != 'direct':
            hi = lo + n - 1
            part = hi + 1 if sides == 'single' else 2*min(-lo, hi) + 1
        tws = self.windows(part, sides) if rng.random() < .7 else []
        tw = tws or None
        steps = 2*R + 1
        axis = np.linspace(-R, R, steps)
        m0 = mat.copy()
        same = True
        if kind == 'direct':
            d, ok, err = self.call(lambda: sm.time_shift_estimate(
                mat, ref, tw, R, steps, single_sided=sides == 'single'))
        elif kind == 'pcp':
            s = self.stats(r, n, lo, sr)
            s0 = deepcopy(s)
            sd = rng.choice(['single', 'right']) if sides == 'single' \
                else 'both'
            d, ok, err = self.call(lambda: pcp.corr_mat_shift(
                mat, s, ref, tw, R, steps, sd,
                return_sim_mat=rng.random() < .7))
            same = s == s0
        else:
            cb = self.bulk(mat, lo, sr)
            s0 = deepcopy(cb.stats)
            sd = 'right' if sides == 'single' else 'both'
            d, ok, err = self.call(lambda: vars(cb.find_clock_shift(
                ref, tw, R, steps, sd, rng.random() < .7)))
            same = cb.stats == s0 and np.array_equal(
                cb.data, m0, equal_nan=True)
        same = same and np.array_equal(mat, m0, equal_nan=True)
        nw = max(1, len(tws))
        self.ev.append(dict(
            ev='ShiftEstimate', mat=ints(m0),
            ref=[] if ref is None else ints(ref), R=R, lo=lo,
            cut=kind != 'direct', sides=sides,
            tws=[t.tolist() for t in tws], ok=ok, err=err, same=bool(same),
            axis=not ok or np.allclose(d['second_axis'], axis),
            obs=observe(d['corr'], d['value'], d.get('sim_mat'), axis, nw, r) if ok else []))

    # -- stretching polynomials
    @staticmethod
    def poly(P, v):
        return P[0] + P[1]*v + P[2]*v*v

    def coefs(self):
        rng = self.rng
        return [rng.randint(-60, 60), rng.randint(-20, 20),
                rng.choice([-2, -1, 0, 1, 2])]

    def prow(self, P, j, r, lo2, n, within=None):
        out = []
        for k in range(n):
            v = (lo2 + 2*k)*2**j
            if within and not within[0]*2**r <= v <= within[1]*2**r:
                out.append(0.)
            else:
                out.append(float(self.poly(P, v)))
        return out

    def stretch(self):
        rng = self.rng
        r2 = rng.choice([1, 1, 2])
        n, r = rng.randint(6, 13), rng.randint(1, 4)
        sr = rng.choice([1, 2, 4, 5])
        kind = rng.choice(['direct', 'bulk', 'bulk'])
        sides = rng.choice(['both', 'left', 'right', 'single'])
        cut = kind != 'direct'
        if cut:
            if sides == 'single':
                lo = -rng.randint(0, n - 5)
            else:
                lo = -rng.randint(2, n - 3)
                if min(-lo, lo + n - 1) < 2:
                    lo = -(n//2)
            lo2 = 2*lo
        else:
            lo = 0
            lo2 = 0 if sides == 'single' else -(n - 1)
        P = self.coefs()
        if P == [0, 0, 0]:
            P = [1, 0, 0]
        own = cut and rng.random() < .4
        ref = True
        rlo2, rhi2 = lo2, lo2 + 2*(n - 1)
        if own:
            # a longer reference with its own header
            rlo2 -= 2*rng.randint(0, 3)
            rhi2 += 2*rng.randint(0, 3)
        elif rng.random() < .25:
            # the average of all rows
            ref = False
        hi = lo + n - 1
        if cut:
            plo, phi = (0, hi) if sides == 'single' else (
                -min(-lo, hi), min(-lo, hi))
            part = phi - plo + 1
            if not ref:
                # the trimmed rows are averaged
                rlo2, rhi2 = 2*plo, 2*phi
        else:
            part = n
        rows, Ps = [], []
        for i in range(r):
            if not ref:
                Pi = self.coefs()
                if rng.random() < .15 and (i or r > 1):
                    rows.append([np.nan]*n if rng.random() < .5 else [0.]*n)
                    continue
                Ps.append(Pi)
                rows.append(self.prow(Pi, r2, r2, lo2, n))
                continue
            if rng.random() < .6:
                j = rng.randint(0, 2*r2)
                rows.append(self.prow(P, j, r2, lo2, n, (rlo2, rhi2)
                                      if rng.random() < .8 else None))
            else:
                rows.append(list(self.rows(1, n, None, nans='some')[0]))
        if not ref:
            P = [sum(p[k] for p in Ps) for k in range(3)] if Ps else [0]*3
        mat = np.array(rows)
        tws = self.windows(part, sides, 1 if cut else 3) \
            if rng.random() < .7 else []
        tw = tws or None
        steps = 2*r2 + 1
        rg = r2*LN2
        axis = np.linspace(-rg, rg, steps)
        m0 = mat.copy()
        same = True
        refd = np.array(self.prow(
            P, r2, r2, rlo2, (rhi2 - rlo2)//2 + 1)) if ref else None
        if kind == 'direct':
            d, ok, err = self.call(lambda: sm.time_stretch_estimate(
                mat, refd, tw, rg, steps, sides))
            if ok:
                d['corr'], d['value'] = (
                    np.asarray(d[k]).T for k in ('corr', 'value'))
        else:
            cb = self.bulk(mat, lo, sr)
            s0 = deepcopy(cb.stats)
            rs = None
            if own or (ref and rng.random() < .3):
                rs = self.stats(1, len(refd), rlo2//2, sr)
            if ref and rng.random() < .25:
                refd = np.tile(refd, (rng.randint(1, 3), 1))
            many = ref and refd.ndim == 2 and len(refd) > 1
            r0 = None if refd is None else refd.copy()
            d, ok, err = self.call(lambda: vars(cb.stretch(
                refd, tw, rg, steps, sides,
                return_sim_mat=many or rng.random() < .7,
                ref_tr_stats=rs)))
            same = cb.stats == s0 and np.array_equal(
                cb.data, m0, equal_nan=True) and (
                    refd is None or np.array_equal(refd, r0))
            if ok:
                st = d['stats']
                same = same and len(st.corr_start) == r
        same = same and np.array_equal(mat, m0, equal_nan=True)
        self.ev.append(dict(
            ev='StretchEstimate', mat=ints(m0), P=P, r=r2, lo=lo,
            zlo2=lo2, rlo2=rlo2, rhi2=rhi2, cut=cut, sides=sides,
            tws=[t.tolist() for t in tws], ok=ok, err=err, same=bool(same),
            axis=not ok or np.allclose(d['second_axis'], axis),
            obs=observe(d['corr'], d['value'], d.get('sim_mat'), axis,
                        max(1, len(tws)), r) if ok else []))

    # -- any stretching
    def general(self):
        rng = self.rng
        n, r = rng.randint(7, 25), rng.randint(1, 5)
        sides = rng.choice(['both', 'left', 'right', 'single'])
        steps = rng.choice([3, 5, 11, 21])
        rg = rng.choice([.01, .05, .1, .3])
        ref = np.array([float(rng.randint(-20, 20) or 7) for _ in range(n)])
        mat = self.rows(r, n, list(ref), nans='some')
        copies = [i + 1 for i in range(r) if rng.random() < .3]
        for i in copies:
            mat[i-1] = ref*rng.choice([1, 2])
        tws = self.windows(n, sides) if rng.random() < .7 else []
        room = n if sides == 'single' else (n - 1)//2 + 1
        tws = [t for t in tws if t[-1] < room]
        axis = np.linspace(-rg, rg, steps)
        nw = max(1, len(tws))
        m0 = mat.copy()
        bulk = n % 2 and rng.random() < .4

        def run(A):
            if bulk:
                tws[1:] = []
                cb = self.bulk(A, 0 if sides == 'single' else -(n//2), 4)
                return vars(cb.stretch(ref, tws or None, rg, steps, sides,
                                       return_sim_mat=True))
            d = sm.time_stretch_estimate(A, ref, tws or None, rg, steps,
                                         sides)
            d['corr'], d['value'] = d['corr'].T, d['value'].T
            return d
        d, ok, err = self.call(lambda: run(mat))
        nw = max(1, len(tws))
        again = []
        for _ in range(2):
            rows = [rng.randrange(r) for _ in range(rng.randint(1, r + 1))]
            b, ok2, err2 = self.call(lambda: run(m0[rows].copy()))
            if not ok2:
                ok, err = False, err2
                break
            again.append(dict(
                rows=[i + 1 for i in rows],
                obs=observe(b['corr'], b['value'], b['sim_mat'], axis, nw,
                            len(rows))))
        self.ev.append(dict(
            ev='General', mat=ints(m0), ref=ints(ref), sides=sides,
            tws=[t.tolist() for t in tws], ok=ok, err=err,
            zero=steps//2 + 1, copies=copies,
            same=bool(np.array_equal(mat, m0, equal_nan=True)),
            axis=not ok or np.allclose(d['second_axis'], axis),
            again=again,
            obs=observe(d['corr'], d['value'], d['sim_mat'], axis, nw, r) if ok else []))

    # -- several references
    def several(self):
        rng = self.rng
        n, r, m = 2*rng.randint(4, 12) + 1, rng.randint(1, 5), rng.choice([
            2, 2, 3, 11])
        sides = rng.choice(['both', 'left', 'right'])
        steps, rg = rng.choice([3, 5, 11]), rng.choice([.05, .1, .3])
        refs = np.array([[float(rng.randint(-20, 20) or 7)
                          for _ in range(n)] for _ in range(m)])
        mat = self.rows(r, n, list(refs[0]), nans=True)
        tws = [t for t in self.windows(n, sides, 1) if t[-1] <= n//2] or None
        axis = np.linspace(-rg, rg, steps)
        par = (tws, rg, steps, sides)
        m0, r0 = mat.copy(), refs.copy()
        # more samples on one side are cut off from a copy
        k = rng.randint(0, 3)
        pad = ((0, 0), rng.choice([(k, 0), (0, k)]))
        wide = np.pad(mat, pad, constant_values=3.)
        wrefs = np.pad(refs, pad, constant_values=-2.)
        unchanged = []
        obs = (lambda d: observe(
            d['corr'], d['value'], d['sim_mat'], axis, 1, r))

        def run():
            one = [obs(vars(self.bulk(mat, -(n//2), 4).stretch(
                x, *par, return_sim_mat=True))) for x in refs]
            panel = sm.multi_ref_vchange(mat, refs, *par)
            many = [obs(panel['reftr_%d' % j]) for j in range(len(panel))]
            whole = obs(vars(self.bulk(mat, -(n//2), 4).stretch(
                refs, *par, return_sim_mat=True)))
            parts = obs(sm.estimate_reftr_shifts_from_dt_corr(
                panel, return_sim_mat=True))
            cb = self.bulk(wide, -(n//2) - pad[1][0], 4)
            s0 = deepcopy(cb.stats)
            cb.stretch(wrefs, *par)
            unchanged.append(cb.stats == s0 and np.array_equal(
                cb.data, wide, equal_nan=True))
            return one, many, whole, parts
        d, ok, err = self.call(run)
        one, many, whole, parts = d if ok else ([], [], [], [])
        self.ev.append(dict(
            ev='Several', ok=ok, err=err, one=one, many=many, whole=whole,
            parts=parts, same=bool(
                all(unchanged) and np.array_equal(mat, m0, equal_nan=True)
                and np.array_equal(refs, r0))))

    # -- shifts in seconds
    def measure(self):
        rng = self.rng
        sr = rng.choice([1, 2, 4])
        R = rng.randint(1, 3)
        sides = rng.choice(['both', 'single'])
        n = rng.randint(4*R + 5, 4*R + 24)
        if sides == 'both':
            lo = -rng.randint(R + 2, n - R - 3)
        else:
            lo = rng.randint(-n, 4)
        hi = lo + n - 1
        r = rng.randint(1, 4)
        base = [float(rng.randint(-20, 20)) for _ in range(n + 2*R)]
        ref = np.array(base[R:R+n])
        mat = self.rows(r, n, None, nans=True)
        shift = [M]*r
        for i in range(r):
            if rng.random() < .6:
                m = rng.randint(-R, R)
                mat[i] = base[R+m:R+m+n]
                shift[i] = m
        spans = []
        none = rng.random() < .2
        if none:
            if sides == 'both' and -lo != hi:
                none = False
            else:
                spans = [[lo + R, hi - R]]
        if not none:
            top = min(-lo, hi) - R if sides == 'both' else hi - R
            bot = 0 if sides == 'both' else lo + R
            for _ in range(rng.randint(1, 2)):
                a = rng.randint(bot, top - 1)
                spans.append([a, rng.randint(a + 1, top)])
        given = rng.random() < .7
        cb = self.bulk(mat, lo, sr)
        s0 = deepcopy(cb.stats)
        tw = None if none else [[a/sr, b/sr] for a, b in spans]
        axis = np.linspace(-R/sr, R/sr, 2*R + 1)
        sims = rng.random() < .7

        def go(x, s):
            return x.measure_shift(
                ref.copy() if given else None, tw, R/sr, 2*R + 1, sides, s)
        d, ok, err = self.call(lambda: go(cb, sims))
        same = cb.stats == s0 and np.array_equal(
            cb.data, mat, equal_nan=True)
        after = []
        if ok and given:
            def correct():
                cb.correct_shift(d)
                return go(cb, False)
            d2, ok, err = self.call(correct)
            if ok:
                o = observe(d2.corr, d2.value, None, axis, 1, r)[0]
                after = [x['value'] for x in o]
        if not given:
            shift = [M]*r
        self.ev.append(dict(
            ev='MeasureShift', mat=ints(mat), ref=ints(ref) if given else [],
            R=R, spans=spans, zero=1 - lo, sides=sides, ok=ok, err=err,
            same=bool(same), shift=shift, after=after,
            axis=not ok or np.allclose(d.second_axis, axis),
            obs=observe(d.corr, d.value, d.sim_mat, axis, 1, r)
            if ok else []))

    # -- corrections
    def dv(self, value, kind, cb):
        return DV(np.ones(len(value)), np.array(value, float), kind, None,
                  np.array([0.]), 'x', cb.stats)

    def apply(self):
        rng = self.rng
        what = rng.choice(['time_shift_apply', 'correct_shift',
                           'correct_stretch'])
        n, r = rng.randint(4, 13), rng.randint(1, 4)
        e = dict(ev='Apply', what=what, P=[], r=0, rlo2=0)
        if what == 'correct_stretch':
            sr = rng.choice([1, 2, 4, 5])
            lo = -rng.randint(0, n - 1)
            r2 = rng.choice([1, 2])
            P = [self.coefs() for _ in range(r)]
            h = [[rng.randint(-r2, r2)] for _ in range(r)]
            mat = np.array([self.prow(p, r2, r2, 2*lo, n) for p in P])
            cb = self.bulk(mat, lo, sr)
            e.update(P=P, r=r2, rlo2=2*lo, rhi2=2*(lo + n - 1))
            d = self.dv([x[0]*LN2 for x in h], 'stretch', cb)
            res, ok, err = self.call(lambda: cb.correct_stretch(d).data)
        else:
            mat = self.rows(r, n, None, nans=False)
            if what == 'correct_shift':
                h = [[rng.randint(-6, 6)] for _ in range(r)]
                sr = rng.choice([1, 2, 4])
                cb = self.bulk(mat, rng.randint(-n, 3), sr)
                d = self.dv([x[0]/2/sr for x in h], 'shift', cb)
                res, ok, err = self.call(lambda: cb.correct_shift(d).data)
            else:
                if rng.random() < .5:
                    h = [[rng.randint(-6, 6)]*n for _ in range(r)]
                    sh = np.array([x[0]/2 for x in h])
                    if rng.random() < .5:
                        sh = sh.reshape(r, 1)
                else:
                    h = [[rng.randint(-6, 6) for _ in range(n)]
                         for _ in range(r)]
                    sh = np.array(h)/2
                one = rng.random() < .5
                res, ok, err = self.call(lambda: sm.time_shift_apply(
                    mat.copy(), sh, one))
        e.setdefault('rhi2', 0)
        e.update(mat=ints(mat), h=h, ok=ok, err=err,
                 out=enc(res, 100) if ok else [])
        self.ev.append(e)

    # -- several references
    def combine(self):
        rng = self.rng
        m, r, n = rng.randint(2, 5), rng.randint(1, 5), rng.randint(9, 21)
        while True:
            offs = [rng.randint(-2, 2) for _ in range(m)]
            if sum(offs) % m == 0:
                break
        base = [rng.randint(2, n - 3) for _ in range(r)]
        axis = np.linspace(-.1, .1, n)
        panels, panel = [], {}
        dead = [rng.random() < .15 for _ in range(r)]
        for j in range(m):
            sims = []
            for i in range(r):
                x = [rng.randint(-500, 500)/1000 for _ in range(n)]
                x[base[i] + offs[j]] = rng.randint(600, 960)/1000
                if dead[i] or (j and rng.random() < .08 and i):
                    x = [np.nan]*n
                sims.append(x)
            # there are values of all references
            if not any(dead) and j == 0:
                pass
            s = np.array(sims)
            panels.append(enc(s, 1000))
            corr = s.max(axis=1)
            val = axis[np.argmax(np.nan_to_num(s, nan=-9), axis=1)]
            val[np.isnan(corr)] = np.nan
            panel['reftr_%d' % j] = dict(
                corr=corr, value=val, sim_mat=s.squeeze(), second_axis=axis,
                value_type='stretch', method='single_ref')
        # each reference shares a row with the first (else: nothing relates
        # them)
        first = [i for i in range(r) if not dead[i]]
        if not any(all(panels[j][i][0] != M for j in range(m))
                   for i in first):
            return
        d, ok, err = self.call(lambda: sm.estimate_reftr_shifts_from_dt_corr(
            panel, return_sim_mat=True))
        self.ev.append(dict(
            ev='Combine', panels=panels, offs=offs, ok=ok, err=err,
            obs=observe(d['corr'], d['value'], d['sim_mat'], axis, 1, r) if ok else []))

    def creation(self):
        rng = self.rng
        starts = [rng.randint(-5, 20) for _ in range(rng.randint(1, 4))]
        lens = [rng.randint(1, 6) for _ in range(
            rng.choice([1, len(starts), len(starts), rng.randint(1, 4)]))]
        if rng.random() < .1:
            lens[rng.randrange(len(lens))] = rng.randint(-2, 0)
        st = starts[0] if len(starts) == 1 and rng.random() < .5 else starts
        ln = lens[0] if len(lens) == 1 and (
            len(starts) > 1 or rng.random() < .5) else lens
        d, ok, err = self.call(lambda: [
            x.tolist() for x in sm.time_windows_creation(st, ln)])
        if len(starts) == 1 and len(lens) > 1 and np.isscalar(st):
            return
        self.ev.append(dict(ev='Creation', starts=starts, lens=lens, ok=ok,
                            out=d if ok else []))


    def monitored(self, root):
        rng = self.rng
        sr = rng.choice([10, 20, 50, 100, 29])
        L = rng.randint(24, 60)
        lts = L/sr
        nb = rng.randint(1, 5)
        whole = rng.random() < .8 and 1000 % sr == 0
        a, b = sorted(rng.sample(range(L + 1), 2))
        if rng.random() < .05:
            b = L + rng.randint(2, 20)
        a, b = 1000*a//sr, 1000*b//sr
        if not whole:
            a, b = a + rng.randint(0, 9), b - rng.randint(0, 9)
        if a >= b or (not whole and lts*1000 - 1 < b < lts*1000 + 1500/sr):
            return
        tt, vel = 0, 1.
        stat = ('NB', 'B', 'HHZ')
        if rng.random() < .3 and sr == 10:
            tt = rng.randint(0, 2)
            stat = ('NB', 'Bb', 'HHZ')
        p = MonProject(root, sr=sr, lts=lts)
        end = b if rng.random() < .8 or tt else 0
        p.dv.update(
            end_date=str(BASE + 3600*nb), stretch_range=0., stretch_steps=3,
            tw_start=a/1000, tw_len=(b - a)/1000 if end else None,
            sides=rng.choice(['both', 'both', 'left', 'right']))
        mat, rows, times = [], [], []
        for i in range(nb):
            x = [float(rng.randint(-19, 19)) for _ in range(2*L + 1)]
            x[rng.randrange(len(x))] = 20.
            if nb > 1 and rng.random() < .2:
                mat.append([np.nan]*len(x))
                continue
            mat.append(x)
            rows.append(x)
            times.append(3600*i + rng.randint(0, 1800))
        if not rows:
            return
        p.add_rows(rng, ('NA', 'A', 'HHZ'), stat, times, rows)
        if stat[1] == 'Bb':
            with quiet():
                from seismic.db.corr_hdf5 import CorrelationDataBase
                with CorrelationDataBase(
                        glob.glob(os.path.join(p.corr, '*.h5'))[0],
                        mode='r') as db:
                    s = db.get_data(
                        'NA-NB', 'A-Bb', 'HHZ-HHZ', 'subdivision')[0].stats
            p.dv.update(compute_tt=True, rayleigh_wave_velocity=float(
                s.dist/(tt + rng.choice([.2, -.3]) if tt else .3)))
            tt = 1000*tt
        seen = []

        def keep(data, stats, freqs, order=3):
            seen.append(freqs)
            return data
        flt = pcp.corr_mat_filter
        try:
            pcp.corr_mat_filter = keep
            e = p.run(lambda m: m.compute_velocity_change_bulk())
        finally:
            pcp.corr_mat_filter = flt
        fs = glob.glob(os.path.join(root, 'vel_change', '*.npz'))
        if fs and not seen:
            # filtered in another way: the data are not known
            return
        sims, corr = [], []
        if fs:
            d = read_dv(fs[0])
            sims = enc(np.reshape(d.sim_mat, (nb, 3)))
            corr = enc(np.ravel(d.corr))
        self.ev.append(dict(
            ev='Monitored', mat=ints(mat), sr=sr, win=[a, end], tt=tt,
            sides=p.dv['sides'], ok=bool(fs), sims=sims, corr=corr,
            err=repr(e)))


KINDS = ['estimate', 'shift', 'stretch', 'stretch', 'general', 'measure',
         'measure', 'apply', 'combine', 'several', 'creation']


def job(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for _ in range(12):
        getattr(g, rng.choice(KINDS))()


def mon(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for _ in range(3):
        root = tempfile.mkdtemp(prefix='c19')
        try:
            g.monitored(root)
        finally:
            shutil.rmtree(root)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('EstimateMC', ctx.pick('Estimate_mc.cfg', 'Estimate_big.cfg'),
              workers=8)
    ev = ctx.pmap([(job, ctx.pick(60, 2000)),
                   (mon, ctx.pick(12, 500))], None)
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev)
        for k in sorted({e['ev'] for e in ev})}
    ctx.validate('EstimateTrace', ev, 'PairsTrace.cfg', describe, chunk=120)
    ctx.assumptions = [
        'monitor: rows of equal amplitude, one correlation for each bin, no '
        'filter (replaced) and no stretching for the values',
        'samples are small integers',
        'exactly stretched references are polynomials of degree 2 and '
        'stretched by powers of two; other stretches: the choice among the '
        'recorded similarities, the unchanged reference, copies and '
        'independence of other rows',
        'shifts of whole samples, windows that start and end at samples']
