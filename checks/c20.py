"""
C20: waveform coherences. Coherence.tla (on Estimate.tla) defines reference
traces, coherences of rows with references over windows, their averages and
groups; CoherenceMC explores the bulk computation by several processes with
failing members. Real calls on random integer matrices, the real monitor on
files of such matrices and the averages it writes are checked by
CoherenceTrace.
"""
import glob
import os
import re
import shutil
import tempfile

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import CorrBulk
from seismic.monitor import monitor as smon
from seismic.monitor import post_corr_process as pcp
from seismic.monitor import stretch_mod as sm
from seismic.monitor.wfc import WFC, WFCBulk, read_wfc

import dbdrive as dd
from c19 import Gen as Gen19, enc, ints, M
from mondrive import MonProject, BASE

METHODS = ['mean', 'mean', 'median', 'norm_mean', 'similarity_percentile',
           'similarity_percentile']


class Gen(Gen19):
    # -- references
    def extract(self):
        rng = self.rng
        method = rng.choice(METHODS)
        r, n = rng.randint(1, 7), rng.randint(3, 12)
        ref = [float(rng.randint(-20, 20)) for _ in range(n)]
        mat = self.rows(r, n, ref, nans='some' if method in (
            'mean', 'median') else True)
        if rng.random() < .1:
            mat[:] = mat[0]
        incs, each = [], False
        starts = [24*i for i in range(r)]
        ends = [s + 24 for s in starts]
        if rng.random() < .5:
            starts = sorted(rng.sample(range(0, 140), r))
            ends = [s + rng.choice([1, 6, 24]) for s in starts]
            each = rng.random() < .5
            incs = [rng.choice([12, 24, 48]) for _ in range(
                rng.randint(1, 4) if each else 1)]
        mat0 = mat.copy()
        cb = self.bulk(mat, -n//2, 4)
        cb.stats.corr_start = [dd.BASE + 3600*s for s in starts]
        cb.stats.corr_end = [dd.BASE + 3600*s for s in ends]
        perc = rng.choice([0, 20, 50, 50, 75, 90, 100])
        inc = [i/24 for i in incs]
        if each and rng.random() < .5:
            inc = np.array(inc)
        elif not each:
            inc = inc[0] if incs else 0
        if incs:
            if np.all(np.asarray(inc) % 1 == 0) and not each:
                inc = int(inc)
            out, ok, err = self.call(
                lambda: cb.extract_multi_trace(inc, method, float(perc)))
        elif rng.random() < .5:
            out, ok, err = self.call(
                lambda: cb.extract_trace(method, float(perc)))
        else:
            out, ok, err = self.call(
                lambda: cb.extract_multi_trace(0, method, float(perc)))
        self.ev.append(dict(
            ev='Extract', mat=ints(mat), method=method, perc=perc, ok=ok,
            err=err, starts=starts, ends=ends, incs=incs, each=each,
            same=np.array_equal(cb.data, mat0, equal_nan=True),
            out=enc(np.atleast_2d(out), 1000) if ok else []))

    # -- coherences of given references
    def wfc(self):
        rng = self.rng
        n, r, q = rng.randint(4, 24), rng.randint(1, 5), rng.choice([
            1, 1, 2, 3, 12])
        ref = [float(rng.randint(-20, 20)) for _ in range(n)]
        refs = self.rows(q, n, ref)
        mat = self.rows(r, n, refs[0], nans='some')
        sides = rng.choice(['both', 'left', 'right', 'single'])
        tws = self.windows(n, sides)
        remove = rng.random() < .7
        mat0, refs0 = mat.copy(), refs.copy()
        how = rng.randrange(3)
        if how == 0 and q == 1:
            d, ok, err = self.call(lambda: {'reftr_0': sm.compute_wfc(
                mat, tws, np.nan_to_num(refs[0]), sides, remove)})
        elif how == 1:
            d, ok, err = self.call(lambda: sm.wfc_multi_reftr(
                mat, refs if q > 1 or rng.random() < .5 else refs[0], tws,
                sides, remove))
        else:
            cb = self.bulk(mat, -n//2, 4)
            d, ok, err = self.call(lambda: cb.wfc(
                refs if q > 1 or rng.random() < .5 else refs[0], tws, sides,
                0, 1, 1, 2, remove))
        same = np.array_equal(mat, mat0, equal_nan=True) and np.array_equal(
            refs, refs0, equal_nan=True)
        if not remove and np.isnan(refs).any():
            # not determined
            return
        obs = []
        if ok:
            # in order of the references
            obs = [enc(d['reftr_%d' % j]) if 'reftr_%d' % j in d else []
                   for j in range(len(d))]
        self.ev.append(dict(
            ev='Wfc', mat=ints(mat0), refs=ints(refs0),
            tws=[t.tolist() for t in tws], sides=sides, remove=remove, ok=ok,
            err=err, obs=obs, same=same))

    def object(self, par, keys, w, r):
        rng = self.rng
        d = {}
        for k in keys:
            x = np.array([[rng.randint(-1000, 1000)/1000 for _ in range(r)]
                          for _ in range(w)])
            x[np.array([[rng.random() < .2 for _ in range(r)]
                        for _ in range(w)])] = np.nan
            if rng.random() < .1:
                x[:] = np.nan
            d[k] = x
        return WFC(d, CorrStats(dict(
            network='A-B', station='a-b', channel=rng.choice('xyz'))),
            dict(zip(('tw_start', 'tw_len', 'freq_min', 'freq_max'), par)))

    def average(self):
        rng = self.rng
        q = rng.choice([1, 1, 2, 3, 11])
        x = self.object((0, 1, 1, 2), ['reftr_%d' % j for j in range(q)],
                        rng.randint(1, 2), rng.randint(1, 6))
        _, ok, err = self.call(x.compute_average)
        self.ev.append(dict(
            ev='Average', vals=[enc(v.ravel()) for v in x.values()],
            av=[enc(x.av[k + '_av']) for k in x if k + '_av' in x.av]
            if ok and len(x.av) == q else [],
            mean=enc(x.mean) if ok else M))

    def rec(self, x, par=None):
        p = x.wfc_processing
        return dict(
            par=par or [str(p[k]) for k in (
                'tw_start', 'tw_len', 'freq_min', 'freq_max')],
            keys=list(x), vals=[enc(np.ravel(v)) for v in x.values()])

    def components(self):
        rng = self.rng
        r = rng.randint(1, 5)
        par = [rng.choice([0, 1, 2.5]), rng.choice([4, 5]), .5, 1]
        ms = []
        for _ in range(rng.randint(1, 4)):
            p = list(par)
            if rng.random() < .07:
                p[rng.randrange(4)] += .25
            ms.append(self.object(
                p, ['reftr_%d' % j for j in range(rng.choice([1, 2, 2, 3]))],
                1, r))
        before = [self.rec(x) for x in ms]
        out, ok, err = self.call(lambda: smon.average_components_wfc(ms))
        self.ev.append(dict(
            ev='Components', members=before, ok=ok, err=err,
            out=self.rec(out) if ok else {}))

    def grid(self):
        rng = self.rng
        xs, ms = [], []
        for _ in range(rng.randint(1, 8)):
            par = (rng.choice([0, 1, 2, 3.5]), rng.choice([1, 4, 5]),
                   rng.choice([.25, .5, 1]), rng.choice([2, 2.5]))
            x = self.object(par, ['reftr_0'], 1, 3)
            if rng.random() < .5:
                self.call(x.compute_average)
            xs.append(x)
        b, ok, err = self.call(lambda: WFCBulk(xs))
        for x in xs:
            p = x.wfc_processing
            v = np.nanmean(x['reftr_0']) if not np.isnan(
                x['reftr_0']).all() else np.nan
            ms.append(dict(
                lw=int(8*(p['tw_start'] + p['tw_len']/2)),
                fr=int(8*(p['freq_max'] + p['freq_min'])/2),
                mean=enc(v)))
        self.ev.append(dict(
            ev='Grid', members=ms, ok=ok, err=err,
            lw=ints(8*b.lw) if ok else [], fr=ints(8*b.cfreq) if ok else [],
            cells=enc(b.wfc) if ok else []))

    # -- the monitor
    def monitored(self, root):
        rng = self.rng
        sr = rng.choice([10, 20, 50, 100, 29])
        L = rng.randint(24, 60)
        lts = L/sr
        nb, bh = rng.randint(1, 5), rng.choice([6, 12, 24])
        wins = []
        for _ in range(rng.randint(1, 3)):
            # in 1/1000 s; often whole samples
            a = rng.randint(0, L//2)
            b = rng.randint(1, L - a + (rng.random() < .1)*20)
            if rng.random() < .8 and 1000 % sr == 0:
                w = (1000*a//sr, 1000*b//sr)
            else:
                w = (1000*a//sr + rng.randint(0, 9),
                     1000*b//sr - rng.randint(0, 9))
            # the end is within the correlation or clearly beyond
            if w[1] > 0 and w[0] + w[1] <= 1000*lts - 1 or \
                    w[0] + w[1] == int(1000*lts) == 1000*lts or \
                    w[0] + w[1] > 1000*lts + 1500/sr:
                wins.append(w)
        wins = sorted(set(wins))
        if not wins:
            return
        p = MonProject(root, sr=sr, lts=lts)
        starts = [bh*i for i in range(nb)]
        incs = [] if rng.random() < .6 else [rng.choice([12, 24, 48])]
        p.wfc.update(
            end_date=str(BASE + 3600*bh*nb), win_len=3600*bh,
            date_inc=3600*bh, freq_min=1, freq_max=2,
            tw_start=[w[0]/1000 for w in wins],
            tw_len=[w[1]/1000 for w in wins], save_comps=True,
            dt_ref=dict(win_inc=incs[0]/24 if incs else 0, method='mean',
                        percentile=50))
        mat, rows, times = [], [], []
        for i in range(nb):
            x = [float(rng.randint(-19, 19)) for _ in range(2*L + 1)]
            x[rng.randrange(len(x))] = 20.
            if nb > 1 and rng.random() < .2:
                mat.append([np.nan]*len(x))
                continue
            mat.append(x)
            rows.append(x)
            times.append(3600*starts[i] + rng.randint(0, 3600))
        if not rows:
            return
        p.add_rows(rng, ('NA', 'A', 'HHZ'), ('NB', 'B', 'HHZ'), times, rows)
        seen = []

        def keep(data, stats, freqs, order=3):
            seen.append(freqs)
            return data
        flt = pcp.corr_mat_filter
        try:
            pcp.corr_mat_filter = keep
            e = p.run(lambda m: m.compute_waveform_coherence_bulk())
        finally:
            pcp.corr_mat_filter = flt
        if not seen:
            # filtered in another way: the data are not known
            return
        obs = []
        for f in sorted(glob.glob(os.path.join(
                root, 'wfc', 'WFC-*.HHZ-HHZ.f*.npz'))):
            x = read_wfc(f)
            q = x.wfc_processing
            obs.append(dict(
                win=[round(1000*q['tw_start']), round(1000*q['tw_len'])],
                refs=[enc(np.ravel(x['reftr_%d' % j])) if
                      'reftr_%d' % j in x else [] for j in range(len(x))]))
        self.ev.append(dict(
            ev='Monitored', mat=ints(mat), sr=sr, wins=wins, incs=incs,
            starts=starts, ends=[s + bh for s in starts], obs=obs,
            err=repr(e)))

    def grouped(self, root):
        rng = self.rng
        lts = 4
        p = MonProject(root, sr=10., lts=lts, separate=rng.random() < .3)
        # windows and bands with the same midpoints, starts or ends
        wins = rng.sample([(0, 2), (0, 4), (1, 2), (1, 3), (2, 2), (1, 1)],
                          rng.randint(1, 3))
        bands = rng.sample([(.5, 2), (1, 2), (1, 3), (.5, 3.5), (1.5, 2.5)],
                           rng.randint(1, 3))
        p.wfc.update(
            freq_min=[b[0] for b in bands], freq_max=[b[1] for b in bands],
            tw_start=[w[0] for w in wins], tw_len=[w[1] for w in wins],
            save_comps=True)
        if len({w[1] for w in wins}) == 1 and rng.random() < .7:
            p.wfc['tw_len'] = wins[0][1]
        stats = [('N%d' % (i % 2), 'S%s' % 'abc'[i//2]) for i in range(3)]
        pairs = [(s, t) for s in stats for t in stats if s <= t]
        want = []
        for s, t in rng.sample(pairs, rng.randint(1, 3)):
            chans = rng.sample([('HHZ', 'HHZ'), ('HHE', 'HHN'),
                                ('HHN', 'HHN'), ('HHE', 'HHZ')],
                               rng.randint(1, 3))
            for a, b in chans:
                times = [3600*i + 60 for i in range(4)
                         if rng.random() < .8] or [0]
                r = np.random.RandomState(rng.randrange(1 << 30))
                p.add_rows(rng, s + (a,), t + (b,), times,
                           r.randn(len(times), int(20*lts) + 1))
            for w in wins:
                for b in bands:
                    want.append(par(
                        '%s-%s' % (s[0], t[0]), '%s-%s' % (s[1], t[1]),
                        dict(tw_start=w[0], tw_len=w[1], freq_min=b[0],
                             freq_max=b[1])))
        ranks = rng.choice([1, 2, 3, 5])
        e = p.run(lambda m: m.compute_waveform_coherence_bulk(), ranks)
        comps, avs = self.written(root, 'wfc')
        # one of them alone
        w, b = rng.choice(wins), rng.choice(bands)
        p.wfc.update(freq_min=b[0], freq_max=b[1], tw_start=w[0], tw_len=w[1],
                     subdir='alone')
        e1 = p.run(lambda m: m.compute_waveform_coherence_bulk(), 1)
        comps1, avs1 = self.written(root, 'alone')
        self.ev.append(dict(
            ev='Grouped', comps=comps, avs=avs, want=want, ranks=ranks,
            comps1=comps1, avs1=avs1, err=repr([e, e1])))

    def written(self, root, sub):
        comps, avs = [], []
        for f in sorted(glob.glob(os.path.join(root, sub, '*.npz'))):
            x = read_wfc(f)
            m = re.match(
                r'WFC-([^.]*)\.([^.]*)\.([^.]*)\.f(.*)-(.*)\.tw(.*)-(.*)\.npz',
                os.path.basename(f))
            q = x.wfc_processing
            r = self.rec(x, par(one(x.stats.network), one(x.stats.station), q))
            r['named'] = bool(m) and par(m[1], m[2], dict(
                freq_min=m[4], freq_max=m[5], tw_start=m[6],
                tw_len=m[7])) == r['par'] and m[3] == one(x.stats.channel)
            r['cha'] = one(x.stats.channel)
            (avs if r['cha'] == 'av' else comps).append(r)
        return comps, avs


def one(x):
    """A header that might be given for each row."""
    return '+'.join(sorted(set(np.atleast_1d(x).tolist())))


def par(net, stat, q):
    return [net, stat] + ['%.6g' % float(q[k]) for k in (
        'tw_start', 'tw_len', 'freq_min', 'freq_max')]


KINDS = ['extract', 'extract', 'extract', 'wfc', 'wfc', 'average',
         'components', 'grid']


def job(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for _ in range(16):
        getattr(g, rng.choice(KINDS))()


def mon(ctx, rng, ev):
    g = Gen(rng, ev)
    ev.append(dict(ev='Reset'))
    for kind in ('monitored', 'monitored', 'grouped'):
        root = tempfile.mkdtemp(prefix='c20')
        try:
            getattr(g, kind)(root)
        finally:
            shutil.rmtree(root)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('CoherenceMC', ctx.pick('Coherence_mc.cfg', 'Coherence_big.cfg'),
              workers=8)
    ev = ctx.pmap([(job, ctx.pick(60, 2000)), (mon, ctx.pick(20, 500))], None)
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev)
        for k in sorted({e['ev'] for e in ev})}
    ctx.validate('CoherenceTrace', ev, 'PairsTrace.cfg', describe, chunk=120)
    ctx.assumptions = [
        'samples are small integers',
        'monitor: rows of equal amplitude, one correlation for each bin and '
        'no filter (replaced) for the values; real filters for the groups',
        'midpoints of bands and windows that are exact in binary']
