"""
C07: results do not depend on the number of processes. Ranks.tla (collective
operations, shares of work, files) is model checked. The real Correlator and
Monitor run with 1..n ranks (threads behind a stand-in for the communicator
that detects deadlocks); for each run the collectives, file accesses and
results are compared with the run of one process by RanksTrace.tla; the
results of the correlation runs also by Corr.tla.
"""
import os
import shutil

import numpy as np

import corrdrive as cd
import fakempi
import mondrive as md
import projects as pj

TD = 'seismic.correlate.preprocessing_td.'
FD = 'seismic.correlate.preprocessing_fd.'
STEPS = dict(
    td=[[dict(function=TD + 'detrend', args={'type': 'linear'})],
        [dict(function=TD + 'TDnormalization', args={
            'filter': None, 'windowLength': 20})],
        [dict(function=TD + 'mute', args={
            'taper_len': 5., 'threshold_factor': 3,
            'extend_gaps': True})],
        [dict(function=TD + 'clip', args={'std_factor': 2})],
        [dict(function=TD + 'signBitNormalization', args={})],
        [dict(function=TD + 'taper', args={'type': 'cosine_taper', 'p': .1})],
        [dict(function=TD + 'TDfilter', args={
            'type': 'bandpass', 'freqmin': .1, 'freqmax': .3,
            'corners': 2})],
        [dict(function=TD + 'detrend', args={'type': 'linear'}),
         dict(function=TD + 'signBitNormalization', args={})]],
    fd=[[dict(function=FD + 'spectralWhitening', args={'joint_norm': False})],
        [dict(function=FD + 'FDsignBitNormalization', args={})],
        [dict(function=FD + 'FDfilter', args={
            'flimit': [.05, .1, .3, .4]})]])


def event(ev, kind, ranks, err, res, rec=None):
    e = dict(ev=kind, err=err[0] if err else '', msg=err[1] if err else '',
             res=res)
    if kind == 'Par':
        e.update(ranks=ranks, ops=fakempi.LAST.ops, acc=rec)
    ev.append(e)


def correlations(ctx, rng, ev):
    """A project with any steps, run with 1 and more ranks."""
    cfg = pj.config(rng, method=rng.choice(
        ['betweenStations'] * 3 + ['autoComponents', 'allCombinations',
                                   'allSimpleCombinations']))
    for k in STEPS:
        if rng.random() < .5:
            cfg[k] = rng.choice(STEPS[k])
    end = cfg['start'] + cfg['inc'] * rng.randint(1, 2)
    joint = rng.random() < .12
    if joint:
        # three components each
        cfg['method'] = 'betweenStations'
        cfg['fd'] = [dict(function=FD + 'spectralWhitening', args={
            'joint_norm': True})]
        chans = pj.network(rng, cfg, end, rng.choice([2, 3, 4]), 3, holes=0)
    else:
        chans = pj.network(rng, cfg, end, rng.choice([2, 3, 3, 4]), (1, 2),
                           holes=.5)
    # sampled with an offset of a fraction of the interval
    off = {id(c): rng.choice([0, 0, .2, .4]) for c in chans}
    odd = rng.random() < .2
    # a channel that cannot be processed: its sampling rate is too low (always
    # or at its end)
    some = rng.random() < .5
    bad = rng.choice(chans) if rng.random() < .3 and len(chans) > 2 \
        and not joint else None
    stream0 = cd.Channel.stream

    def stream(self):
        st = stream0(self)
        for tr in st:
            if self is bad and (tr is st[-1] or not some):
                tr.stats.sampling_rate = .5
            elif odd:
                tr.stats.starttime += off[id(self)]
        return st
    cd.Channel.stream = stream
    p = cd.Project(ctx.dir(), cfg, [])
    try:
        p.store(chans)
    finally:
        cd.Channel.stream = stream0
    kw = dict(subdiv=rng.random() < .3, separate=rng.random() < .4)
    first = cfg['start'] + cfg['inc'] if rng.random() < .3 else None
    ev.append(dict(ev='Reset', about=repr((
        cfg, kw, end, first, bad and vars(bad), some,
        [(vars(c), odd and off[id(c)]) for c in chans]))))
    for ranks in [1] + rng.sample([2, 3, 4, 5, 7, 9], ctx.pick(2, 4)):
        shutil.rmtree(p.corr, ignore_errors=True)
        if first:
            # the second run resumes
            p.run(first, **kw)
        rec = []
        err = p.run(end, ranks=ranks, rec=rec, **kw)
        event(ev, 'Serial' if ranks == 1 else 'Par', ranks, err,
              p.results(), rec)
    shutil.rmtree(p.root)


def exact(ctx, rng, ev):
    """Runs whose results Corr.tla computes, on any number of ranks."""
    cfg = pj.config(rng, dele=False)
    end = cfg['start'] + cfg['inc'] * 2
    p = cd.Project(ctx.dir(), cfg, ev)
    p.store(pj.network(rng, cfg, end, 3, (1, 2)))
    p.run(end - cfg['inc'], ranks=rng.randint(1, 4))
    p.run(end, ranks=rng.randint(2, 9), separate=False)
    shutil.rmtree(p.root)


def monitoring(ctx, rng, ev):
    p = md.MonProject(ctx.dir(), separate=rng.random() < .5)
    sta = rng.sample(pj.IDS, 3)
    pairs = []
    for i in range(3):
        for j in range(i, 3):
            for ca, cb in (('HHZ', 'HHZ'), ('HHE', 'HHZ'), ('HHE', 'HHE')):
                if rng.random() < .4:
                    pairs.append((sta[i] + (ca,), sta[j] + (cb,)))
    pairs = pairs or [(sta[0] + ('HHZ',), sta[1] + ('HHZ',))]
    for a, b in pairs:
        times = [t for t in range(0, 4 * 3600, 1800) if rng.random() < .8]
        p.add(rng, a, b, times or [0])
    p.wfc['save_comps'] = rng.random() < .5
    p.wfc['freq_min'], p.wfc['freq_max'] = rng.choice(
        [([.5, 1], [1, 3]), (.5, 2)])
    what = rng.choice(['dv', 'wfc', 'wfc'])

    def work(m):
        if what == 'dv':
            m.compute_velocity_change_bulk()
        else:
            m.compute_waveform_coherence_bulk()
    out = os.path.join(p.root, 'vel_change' if what == 'dv' else 'wfc')
    ev.append(dict(ev='Reset'))
    for ranks in [1] + rng.sample([2, 3, 4, 6, 12], 2):
        shutil.rmtree(out, ignore_errors=True)
        rec = []
        err = p.run(work, ranks, rec)
        event(ev, 'Serial' if ranks == 1 else 'Par', ranks, err,
              md.results(out), rec)
        if ranks == 1:
            assert ev[-1]['res'] or err, 'nothing computed'
    shutil.rmtree(p.root)


def describe(b):
    e = b['event']
    d = b.get('detail') or {}
    return 'Ranks:%s:%s' % (b['clause'], d.get('err', ''))


def run(ctx):
    ctx.model('Ranks', ctx.pick('Ranks_mc.cfg', 'Ranks_big.cfg'), workers=8)
    ev = ctx.pmap([(correlations, ctx.pick(48, 500)),
                   (monitoring, ctx.pick(24, 200))], None)
    ctx.cov['parallel_runs'] = sum(e['ev'] == 'Par' for e in ev)
    ctx.validate('RanksTrace', ev, 'RanksTrace.cfg', describe, chunk=60)
    ev = ctx.pmap(exact, ctx.pick(16, 150))
    ctx.validate('CorrTrace', ev, 'CorrTrace.cfg', describe, chunk=12)
    ctx.assumptions = [
        'ranks are threads behind a stand-in for the communicator',
        'all ranks see the same files']
