"""
C04: correlation runs are resumable. CorrRun.tla (the run as an algorithm
with crashes) is model checked; behaviours it generates and crashes at every
single write are replayed with the real Correlator on real files; random
histories of runs over growing periods, stations, methods and changed data
are recorded. Corr.tla decides after each run what must and may be stored.
"""
import random
import shutil
from functools import partial

import corrdrive as cd
import projects as pj

MEMBERS = [('A', 'S1', 'HHZ'), ('A', 'S10', 'HHZ'), ('AB', 'S', 'HHZ'),
           ('B', 'A', 'HHZ')]


def replay(ctx, rng, ev, g):
    """A behaviour of CorrRun: pair p is (hub, member p)."""
    cfg = dict(start=0, inc=600, len=600, ci=200, cl=200, S=20,
               method='betweenStations', xcombis=None, recomb=True,
               dele=False)
    ids = list(MEMBERS)
    rng.shuffle(ids)
    hub, mem = ids[0], ids[1:]
    end = 1800
    p = cd.Project(ctx.dir(), cfg, ev)
    avail = {tuple(a) for a in g['avail']}
    chans = []
    for i, m in enumerate([hub] + mem):
        ch = cd.Channel(*m)
        if i == 0:
            ch.segs = [(0, 1800)]
        else:
            for r in range(3):
                for k in range(3):
                    if (i, r + 1, k + 1) in avail:
                        a = r * 600 + k * 200
                        ch.segs.append((a, a + 199))
        # adjacent pieces are one segment
        segs = []
        for a, b in ch.segs:
            if segs and segs[-1][1] + 1 == a:
                segs[-1] = (segs[-1][0], b)
            else:
                segs.append((a, b))
        ch.segs = segs
        chans.append(pj.fill(rng, ch, cfg, end))
    p.store(chans)
    runs = [(x['sel'], x['end'], x['crash']) for x in g['log']]
    runs.append(([1, 2, 3], 3, 0))
    for n, (sel, e, crash) in enumerate(runs):
        xc = []
        for i in sel:
            a, b = (hub, mem[i - 1]) if rng.random() < .5 else (
                mem[i - 1], hub)
            xc.append('%s-%s.%s-%s' % (a[0], b[0], a[1], b[1]) + (
                '.HHZ-HHZ' if rng.random() < .5 else ''))
        p.run(e * 600, ranks=rng.choice([1, 1, 1, 2, 3]), crash=crash,
              post=rng.random() < .3, xcombis=xc, subdiv=rng.random() < .3)
    shutil.rmtree(p.root)


def every_write(ctx, rng, ev, part, parts, seed):
    """Die at each write of a run (before / within it), then resume."""
    rng = random.Random(seed)
    cfg = dict(start=0, inc=600, len=600, ci=200, cl=200, S=20,
               method='betweenStations', xcombis=None, recomb=True,
               dele=False)
    chans = []
    for m in (('A', 'S1', 'HHZ'), ('A', 'S10', 'HHZ'), ('B', 'S', 'HHZ')):
        ch = cd.Channel(*m)
        ch.segs = [(-100, 1400)]
        chans.append(pj.fill(rng, ch, cfg, 1200))
    sep = rng.random() < .5
    k = 1 + part
    while True:
        p = cd.Project(ctx.dir(), cfg, ev)
        p.store(chans)
        p.run(1200, crash=k, post=k % 2 == 0, separate=sep)
        dead = ev[-1]['crash']
        p.run(1200, ranks=1 + k % 3, separate=sep)
        p.run(1200, separate=sep)
        shutil.rmtree(p.root)
        if not dead:
            return
        k += parts


METHODS = ['betweenStations', 'betweenComponents', 'autoComponents',
           'allSimpleCombinations', 'allCombinations']


def history(ctx, rng, ev):
    cfg = pj.config(rng, method=rng.choice(METHODS))
    if cfg['dele']:
        # stacks only: there is nothing to resume from
        cfg['dele'] = False
    end = cfg['start'] + cfg['inc'] * 3
    comps = rng.choice([1, 1, (1, 3)])
    chans = pj.network(rng, cfg, end, rng.choice([2, 3, 3, 4]), comps,
                       holes=.4)
    p = cd.Project(ctx.dir(), cfg, ev)
    sep = rng.random() < .25
    factor = 1
    for _ in range(rng.randint(2, 4)):
        k = rng.random()
        have = chans if k < .6 else rng.sample(
            chans, rng.randint(1, len(chans)))
        if rng.random() < .4:
            # computing a stored correlation again would be seen
            factor = 3 - factor
        p.store([pj.scaled(c, factor) for c in have])
        crash = rng.randint(1, 14) if rng.random() < .4 else 0
        p.run(cfg['start'] + cfg['inc'] * rng.randint(1, 3),
              ranks=rng.choice([1, 1, 1, 2, 3]), crash=crash,
              post=rng.random() < .3, separate=sep,
              subdiv=rng.random() < .3,
              method=rng.choice(METHODS) if rng.random() < .15
              else cfg['method'])
    shutil.rmtree(p.root)


def describe(b):
    e = b['event']
    return 'CorrRun:%s:%s:%s' % (
        b['clause'], e.get('method'), e.get('err', ''))


def run(ctx):
    ctx.model('CorrRun', 'CorrRun_mc3.cfg', workers=8)
    if ctx.thorough:
        ctx.model('CorrRun', 'CorrRun_mc.cfg', workers=8, timeout=850)
    n = ctx.pick(16, 150)
    gen = ctx.gen('CorrRunGen', 'CorrRunGen.cfg', workers=1, extra=[
        '-simulate', 'num=%d' % n, '-depth', '170', '-seed', str(ctx.seed)])
    by = {str(sorted(map(tuple, g['avail']))): g for g in gen}
    ctx.cov['behaviours_replayed'] = len(by)
    jobs = [(partial(replay, g=g), 1) for g in by.values()]
    for _ in range(ctx.pick(1, 4)):
        seed = ctx.rng.random()
        jobs += [(partial(every_write, part=i, parts=8, seed=seed), 1)
                 for i in range(8)]
    jobs.append((history, ctx.pick(60, 600)))
    ev = ctx.pmap(jobs, None)
    ctx.cov['runs'] = sum(e['ev'] == 'Run' for e in ev)
    ctx.cov['runs_that_died'] = sum(bool(e.get('crash')) for e in ev)
    ctx.validate('CorrTrace', ev, 'CorrTrace.cfg', describe, chunk=30)
    ctx.assumptions = [
        'a run dies by an exception: the HDF5 library still closes the file',
        'sample-aligned data, one location code per channel',
        'a dead run is followed by one with the same options']
