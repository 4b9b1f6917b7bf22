"""
C15: bulk monitoring. Monitor.tla says which files and channels are asked
for, which windows there are and what is left after failures (MonitorMC: all
small sets of files, channels and requests, runs with failures). The real
Monitor runs on projects with unreadable files, files without options,
channels that are too short or damaged, on several ranks; the results are
compared with what the specification demands and with each channel computed
alone.
"""
import os

import h5py
import numpy as np
from obspy import UTCDateTime

import seismic.monitor.monitor as sm
from seismic.monitor.dv import read_dv
from seismic.monitor.wfc import read_wfc

import mondrive as md
from mondrive import BASE, MonProject, coda
from vf import code, quiet

NETS = ['A', 'AA', 'B', 'a', 'AB']
STAS = ['S1', 'S10', 'S2', 'T', 'cave', 'S']
CHAS = ['HHZ', 'HHE', 'BHZ']
DIRS = ['p', 'a[1]', 'x*', 'corr-A.B-S', 'q?']
PATS = ['*', 'A', 'A*', '?', 'B', '??', 'a', 'C']
SPATS = ['*', 'S1', 'S*', 'S?', 'T', '*1*', 'cave', 'X', 'S2', 'S10']


def grid(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(40):
        base = UTCDateTime(rng.choice([
            '1971-01-01', '2015-06-30T23:00:00', '2016-02-28T12:00:00',
            '2038-01-19T00:00:00']))
        inc = rng.choice([1, 7, 1800, 3600, 86400, 5400, 0, -5])
        n = rng.choice([1, 2, 3, 5, 40])
        a = rng.choice([0, 0, 3600, -1800])
        b = a + inc * n + rng.choice([0, 0, 0, .25, 1, -1, -.5, inc // 2])
        ln = rng.choice([inc, inc * 2, 1, 3600, 0, -1])
        s, e = base + a, base + b
        if rng.random() < .7:
            s, e = str(s), str(e)
        elif rng.random() < .1:
            e = s
            b = a
        ok, got = True, []
        try:
            with quiet():
                x, y = sm.make_time_list(s, e, inc, ln)
            got = [[int(round((p - base.timestamp) * 4)),
                    int(round((q - base.timestamp) * 4))]
                   for p, q in zip(x, y)]
            assert len(x) == len(y)
        except ValueError:
            ok = False
        ev.append(dict(
            ev='Grid', start=int(a * 4), end=int(b * 4), inc=inc * 4,
            len=ln * 4, ok=ok, got=got))


def request(rng, pats, codes):
    if rng.random() < .35:
        return '*'
    if rng.random() < .3:
        return rng.choice(pats + codes)
    n = rng.randint(1, 3)
    return [rng.choice(pats + codes + codes) for _ in range(n)]


def pats(r):
    return [code(x) for x in ([r] if isinstance(r, str) else r)]


def find(ctx, rng, ev):
    """Only which files are chosen"""
    ev.append(dict(ev='Reset'))
    d = os.path.join(ctx.dir(), rng.choice(DIRS))
    os.makedirs(d)
    files = []
    for _ in range(rng.randint(0, 8)):
        n = [rng.choice(NETS), rng.choice(NETS)]
        s = [rng.choice(STAS), rng.choice(STAS)]
        f = '%s-%s.%s-%s' % (*n, *s)
        if os.path.exists(os.path.join(d, f + '.h5')):
            continue
        open(os.path.join(d, f + '.h5'), 'w').close()
        files.append(dict(n=[code(x) for x in n], s=[code(x) for x in s],
                          bad=False, chans=[]))
    for f in ['x.h5', 'A-A.h5', 'A-A.S1-S1.npz', 'A-A.S1-S1.h5.bak']:
        open(os.path.join(d, f), 'w').close()
    for _ in range(12):
        net = dict(network=request(rng, PATS, NETS),
                   station=request(rng, SPATS, STAS), component='*')
        with quiet():
            a, b, f = sm.corr_find_filter(d, net)
        ev.append(dict(
            ev='Find', files=files, net=pats(net['network']),
            sta=pats(net['station']),
            got=[[code(x), code(y),
                  os.path.realpath(z) == os.path.realpath(os.path.join(
                      d, '%s.%s.h5' % (x, y)))]
                 for x, y, z in zip(a, b, f)]))
        assert len(a) == len(b) == len(f)


def look(path):
    d = read_dv(path)
    n, s, c = os.path.basename(path)[3:-4].split('.')
    num = (lambda x, k: [
        int(round(y * k)) if np.isfinite(y) else 999999999 for y in x])
    return dict(
        file=[code(n), code(s), code(c)], n=code(d.stats.network),
        s=code(d.stats.station), c=code(d.stats.channel),
        times=[[int(a - BASE), int(b - BASE)] for a, b in zip(
            d.stats.corr_start, d.stats.corr_end)],
        avail=[bool(x) for x in np.isfinite(d.corr)],
        v=num(d.corr, 1e4) + num(d.value, 1e5))


def damage(f, chan):
    """Destroy the compressed data of one correlation of the channel"""
    with h5py.File(f, 'r+') as h:
        ds = []
        h.visititems(lambda k, v: ds.append((k, v)) if isinstance(
            v, h5py.Dataset) and {chan, 'subdivision'} <= set(
                k.split('/')) else None)
        k, v = ds[0]
        if v.chunks is None or not v.compression:
            return False
        v.id.write_direct_chunk((0,) * v.ndim, b'\x07nonsense')
    return True


def project(ctx, rng):
    root = os.path.join(ctx.dir(), rng.choice(DIRS[:2]))
    os.makedirs(root)
    p = MonProject(root, separate=rng.random() < .3)
    inc = rng.choice([1800, 3600, 5400])
    end = rng.choice([2 * 3600, 3 * 3600 + 900, 4 * 3600])
    p.dv.update(date_inc=inc, win_len=rng.choice([inc, 2 * inc, 1800]),
                end_date=str(BASE + end))
    p.wfc.update(date_inc=inc, win_len=inc, end_date=str(BASE + end))
    if rng.random() < .3:
        p.dv['tw_len'] = None
        p.dv['tw_start'] = 0
    if rng.random() < .5:
        p.dv.update(compute_tt=True, rayleigh_wave_velocity=100)
    if rng.random() < .4:
        p.dv['postprocessing'] = [dict(
            function='smooth_sim_mat', args={'win_len': 1})]
    if rng.random() < .3:
        p.dv['sides'] = rng.choice(['left', 'right'])
    t = [BASE + x for x in range(0, end, inc)]
    grid_ = [[int(x - BASE), int(x - BASE) + p.dv['win_len']] for x in t]
    files = {}
    nets = rng.sample(NETS[:3], 2)
    stas = rng.sample(STAS[:5], 3)
    for _ in range(rng.randint(2, 6)):
        a = (rng.choice(nets), rng.choice(stas), rng.choice(CHAS))
        b = (rng.choice(nets), rng.choice(stas), rng.choice(CHAS))
        if not a <= b:
            a, b = b, a
        cha = a[2] + '-' + b[2]
        key = (a[0], b[0], a[1], b[1])
        fl = files.setdefault(key, dict(chans={}, bad=False))
        if cha in fl['chans']:
            continue
        kind = rng.choice(['ok'] * 4 + ['short', 'tag', 'damaged'])
        times = [x for x in range(0, end + 1800, 1800)
                 if rng.random() < .75] or [0]
        ref = coda(rng, 9) if kind == 'short' else None
        f = p.add(rng, a, b, times, ref=ref,
                  tag='stack_86400' if kind == 'tag' else 'subdivision')
        fl['f'] = f
        if kind == 'tag':
            continue
        ok = kind == 'ok'
        if kind == 'damaged' and not damage(f, cha):
            ok = True
        fl['chans'][cha] = dict(c=code(cha), t=times, ok=ok)
        if rng.random() < .08 and not p.sep:
            fl['bad'] = True
    for fl in files.values():
        if fl['bad']:
            with open(fl['f'], 'r+b') as x:
                x.truncate(100)
    F = [dict(n=[code(k[0]), code(k[1])], s=[code(k[2]), code(k[3])],
              bad=fl['bad'], chans=list(fl['chans'].values()))
         for k, fl in files.items()]
    if rng.random() < .5:
        p.net = dict(network=request(rng, PATS, nets),
                     station=request(rng, SPATS, stas), component='*')
    return p, F, grid_


def bulk(ctx, rng, ev):
    p, F, grid_ = project(ctx, rng)
    ev.append(dict(ev='Reset'))
    out = os.path.join(p.root, 'vel_change')
    rec = []
    err = p.run(lambda m: m.compute_velocity_change_bulk(),
                rng.choice([1, 1, 2, 3]), rec)
    res = [look(os.path.join(out, f)) for f in sorted(os.listdir(out))]
    writes = [x[2] for x in rec if x[3] and x[2].endswith('.npz')]
    # every channel for itself
    alone = []
    if rng.random() < ctx.pick(.5, 1):
        p.dv['subdir'] = 'alone'
        out = os.path.join(p.root, 'alone')
        for r in res:
            n, s, c = [''.join(map(chr, r[k])) for k in 'nsc']
            f = os.path.join(p.corr, '%s.%s%s.h5' % (
                n, s, '.' + c if p.sep else ''))
            p.run(lambda m: m.compute_velocity_change(
                f, 'subdivision', n, s, c))
        alone = [look(os.path.join(out, f)) for f in (
            sorted(os.listdir(out)) if res else [])]
    ev.append(dict(
        ev='Bulk', files=F, net=pats(p.net['network']),
        sta=pats(p.net['station']), err=repr(err[0]) if err else '',
        grid=grid_, res=res, alone=alone, writes=writes))


def wfc(ctx, rng, ev):
    p, F, grid_ = project(ctx, rng)
    ev.append(dict(ev='Reset'))
    p.wfc['freq_min'], p.wfc['freq_max'] = rng.choice(
        [([.5, 1], [1, 3]), (.5, 2)])
    p.wfc['tw_start'], p.wfc['tw_len'] = rng.choice(
        [([0, 4], 5), (2, 6), ([0, 5], [5, 6])])
    p.wfc['save_comps'] = rng.random() < .3
    err = p.run(lambda m: m.compute_waveform_coherence_bulk(),
                rng.choice([1, 1, 2, 3]))
    lst = (lambda x: x if isinstance(x, list) else [x])
    groups = [
        '%g-%g:%g-%g' % (a, b, s, n)
        for a, b in zip(lst(p.wfc['freq_min']), lst(p.wfc['freq_max']))
        for s, n in zip(
            lst(p.wfc['tw_start']),
            p.wfc['tw_len'] if isinstance(p.wfc['tw_len'], list)
            else [p.wfc['tw_len']] * 9)]
    out = os.path.join(p.root, 'wfc')
    av = []
    for f in sorted(os.listdir(out)) if os.path.isdir(out) else []:
        w = read_wfc(os.path.join(out, f))
        if not isinstance(w.stats.channel, str) or w.stats.channel != 'av':
            continue
        q = w.wfc_processing
        av.append([code(str(w.stats.network)), code(str(w.stats.station)),
                   '%g-%g:%g-%g' % (q['freq_min'], q['freq_max'],
                                    q['tw_start'], q['tw_len'])])
    ev.append(dict(
        ev='Wfc', files=F, net=pats(p.net['network']),
        sta=pats(p.net['station']), err=repr(err[0]) if err else '',
        groups=groups, av=av))


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('MonitorMC', 'Monitor_mc.cfg')
    ev = ctx.pmap([(grid, ctx.pick(8, 60)), (find, ctx.pick(24, 300)),
                   (bulk, ctx.pick(110, 900)), (wfc, ctx.pick(32, 300))], 0)
    n = (lambda k: [e for e in ev if e['ev'] == k])
    ctx.cov['grids'] = len(n('Grid'))
    ctx.cov['requests'] = len(n('Find'))
    ctx.cov['bulk_runs'] = len(n('Bulk'))
    ctx.cov['results'] = sum(len(e['res']) for e in n('Bulk'))
    ctx.cov['failing_channels'] = sum(
        not c['ok'] for e in n('Bulk') for f in e['files']
        for c in f['chans'])
    ctx.cov['coherence_runs'] = len(n('Wfc'))
    ctx.validate('MonitorTrace', ev, 'PairsTrace.cfg', describe, chunk=150)
