"""
C26: velocity-change curves are stitched together by whole steps of their
axis. Stitch.tla defines over which times two curves are compared, by how
much one is shifted and which curve is shifted onto which; StitchMC explores
all families of short curves. Real results with random curves are corrected
one by one, in lists and while averaging; StitchTrace decides the outcomes.
"""
import copy
import warnings

import numpy as np

from seismic.correlate.stats import CorrStats
from seismic.monitor import monitor as smon
from seismic.monitor.dv import DV

import dbdrive as dd
from dvdrive import NAN, num
from vf import quiet

J = 41
STEPS = [.001, .0005, .01, 1/3, 1.]


class Family:
    """Curves of one place: common changes, gaps and offsets of their own"""
    def __init__(self, rng):
        self.rng = rng
        self.T = rng.randint(2, 7)
        self.step = rng.choice(STEPS)
        # the middle of the axis is not always zero
        self.lo = rng.choice([-J // 2, -J // 2 + 3])
        self.gap = rng.choice([1, 1, 6])
        self.truth = [rng.randint(-2, 2)*rng.choice([0, 1])
                      for _ in range(self.T)]

    def avail(self):
        rng, T = self.rng, self.T
        x = rng.random()
        if x < .05:
            return set()
        if x < .6:
            a = rng.randint(0, T - 1)
            A = set(range(a, rng.randint(a, T - 1) + 1))
            if rng.random() < .2 and len(A) > 1:
                A -= {rng.choice(sorted(A))}
            return A
        return set(rng.sample(range(T), rng.randint(1, T)))

    def dv(self, A=None):
        rng, T = self.rng, self.T
        A = self.avail() if A is None else A
        off = rng.randint(-2, 2)
        value, corr = [NAN]*T, [NAN]*T
        sim = np.full((T, J), np.nan)
        mid = self.lo + J//2
        for t in A:
            value[t] = mid + self.truth[t] + off + (
                rng.randint(-1, 1) if rng.random() < .3 else 0)
            corr[t] = rng.randint(10, 99)
            sim[t] = [rng.randint(-60, 0)/100 for _ in range(J)]
            sim[t, value[t] - self.lo] = corr[t]/100
        s = CorrStats(dict(
            network='A-A', station='S%d-S%d' % (2*(rng.random() < .5), 1),
            channel='HHZ-HHZ'))
        s['corr_start'] = [dd.BASE + 3600*self.gap*t for t in range(T)]
        s['corr_end'] = [dd.BASE + 3600*(self.gap*t + 1) for t in range(T)]
        f = (lambda a, u: np.array(
            [np.nan if x == NAN else x*u for x in a]))
        return DV(f(corr, .01), f(value, self.step), 'stretch', sim,
                  np.array([self.lo + j for j in range(J)])*self.step,
                  'stretch', s, dv_processing={})

    def look(self, d):
        return dict(value=num(d.value/self.step, 1), corr=num(d.corr, 100),
                    sim=num(d.sim_mat, 100))


def call(f, pair=False):
    with quiet(), np.errstate(all='ignore'), \
            warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            return f(), True, '', sum(x.category is UserWarning for x in w)
        except (ValueError, IndexError) as x:
            # there is nothing to compare
            return None, False, '' if pair else repr(x), 0
        except Exception as x:
            return None, False, repr(x), 0


def digest(d):
    return repr((d.corr.tobytes(), d.value.tobytes(), d.sim_mat.tobytes(),
                 d.second_axis.tobytes(), sorted(map(str, d.stats.items()))))


def pair(rng, ev):
    f = Family(rng)
    a, b = f.dv(), f.dv()
    n, method = rng.choice([0, 0, 1, 2, 9]), rng.choice(['mean', 'median'])
    ins, ref = [f.look(a), f.look(b)], digest(b)
    kw = {}
    if method != 'mean' or rng.random() < .5:
        kw['method'] = method
    if n or rng.random() < .5:
        kw['n_overlap'] = n
    out, ok, err, _ = call(lambda: smon.correct_dv_shift(a, b, **kw), True)
    ev.append(dict(
        ev='Pair', n=n, method=method, ok=ok, err=err, ins=ins,
        out=f.look(a), refsame=digest(b) == ref, mid=f.lo + J//2, lo=f.lo,
        same=not ok or (out[0] is a and out[1] is b)))


def family(rng, ev):
    f = Family(rng)
    dvs = [f.dv() for _ in range(rng.randint(1, 4))]
    if rng.random() < .3:
        # at the same times
        A = {t for t in range(f.T) if not np.isnan(dvs[0].corr[t])}
        dvs.append(f.dv(A))
    rng.shuffle(dvs)
    n, method = rng.choice([0, 0, 1, 2, 9]), rng.choice(['mean', 'median'])
    ins = [f.look(d) for d in dvs]
    work = copy.deepcopy(dvs)
    _, ok, err, warned = call(lambda: smon.correct_time_shift_several(
        work, method, n))
    outs = [f.look(d) for d in work]
    av, aok, aerr, _ = call(lambda: smon.average_components(
        copy.deepcopy(dvs), rng.random() < .5, True, method, n))
    if aok:
        av = dict(sim=num(av.sim_mat, 100000), corr=num(av.corr, 100000),
                  value=num(av.value/f.step, 1), n=num(av.n_stat, 1))
    ev.append(dict(
        ev='Several', n=n, method=method, ok=ok, err=err, warned=warned,
        ins=ins, outs=outs, lo=f.lo, mid=f.lo + J//2, aok=aok, aerr=aerr,
        av=av if aok else []))


def histories(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(10):
        pair(rng, ev)
    for _ in range(6):
        family(rng, ev)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('StitchMC', ctx.pick('Stitch_mc.cfg', 'Stitch_big.cfg'),
              workers=8)
    ev = ctx.pmap(histories, ctx.pick(64, 1500))
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('StitchTrace', ev, 'PairsTrace.cfg', describe, chunk=300)
    ctx.assumptions = [
        'similarities have one maximum per row that stays on the axis, at '
        'least ten steps away from its ends',
        'what is shifted in at the ends of rows is left open (see C13)']
