"""
C08: every correlation uses exactly its own time window of data. Projects
with random schedules and availability (late starts, early ends, gaps,
snippets, missing stations); Corr.tla computes from the samples which windows
of which pairs there are and every stored value.
"""
import shutil

import corrdrive as cd
import projects as pj


def one(ctx, rng, ev):
    cfg = pj.config(rng, method=rng.choice(
        ['betweenStations'] * 4 + ['autoComponents', 'betweenComponents']))
    end = cfg['start'] + cfg['inc'] * rng.randint(1, 3)
    if rng.random() < .3:
        # the period is no multiple of the increment
        end -= 100 * rng.randint(1, max(1, cfg['inc'] // 100 - 1))
    p = cd.Project(ctx.dir(), cfg, ev)
    ncha = (2, 3) if cfg['method'] == 'betweenComponents' else (1, 2)
    p.store(pj.network(rng, cfg, end + cfg['inc'], rng.choice([2, 3]), ncha,
                       holes=.7))
    p.run(end, subdiv=rng.random() < .3)
    if rng.random() < .4:
        # with existing data the preprocessing per subdivision takes effect
        p.run(end + cfg['inc'], subdiv=rng.random() < .7)
    shutil.rmtree(p.root)


def describe(b):
    e = b['event']
    return 'Corr:%s:%s:%s' % (
        b['clause'], e.get('method'), e.get('err', ''))


def run(ctx):
    ev = ctx.pmap(one, ctx.pick(160, 2000))
    ctx.cov['runs'] = sum(e['ev'] == 'Run' for e in ev)
    ctx.cov['windows_stored'] = sum(
        len(e['content']) for e in ev if e['ev'] == 'Run')
    ctx.validate('CorrTrace', ev, 'CorrTrace.cfg', describe, chunk=30)
    ctx.assumptions = [
        'sample-aligned data, one location code per channel',
        'snippets of at most 80 samples (4 times the taper) are no data',
        'of overlapping read windows the first with data counts']
