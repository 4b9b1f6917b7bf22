"""
C14: averaging all results of a folder. Folder.tla says which files enter
which average (FolderMC: all histories of a small folder); random folders
with confusable codes, other averages, unreadable files and difficult paths
are averaged repeatedly, and the files are compared after every run.
"""
import glob
import hashlib
import os
import random

import numpy as np

import seismic.monitor.monitor as sm
from seismic.monitor.dv import read_dv


from dvdrive import damage, look, make, spec
from mondrive import MonProject
from vf import code, quiet

METHODS = {'auto': ['AutoComponents', 'autocomponents'],
           'xc': ['BetweenComponents', 'CrossComponents'],
           'station': ['StationWide', 'stationwide'],
           'cross': ['BetweenStations', 'CrossStations']}
DIRS = ['p', 'save', 'x.av.y', 'av', 'a[1]', 'dv-net.av', 'DV-A-A.S1-S1',
        'x.av-auto.y']
NETS = ['A-A', 'A-A', 'A-B', 'AV-AV', 'DV-DV', 'av1-av1']
STAS = ['S1-S1', 'S1-S10', 'S10-S10', 'S1-S2', 'cave-cave', 'S-S', 'S1-S1']
CHAS = ['HHZ-HHZ', 'HHE-HHE', 'HHN-HHN', 'HHZ-HHE', 'HHE-HHN', 'HHZ-HHN']


def files(out):
    r = {}
    for f in sorted(os.listdir(out)):
        with open(os.path.join(out, f), 'rb') as x:
            r[f] = hashlib.sha1(x.read()).hexdigest()
    return r


def record(path, bad):
    """A file as the specification sees it"""
    n, s, c = os.path.basename(path)[3:-4].split('.')
    r = dict(name=code(c), bad=bad)
    for k, x in (('n', n), ('s', s), ('c', c)):
        y = (x.split('-') + [''])[:2]
        r[k + '1'], r[k + '2'] = code(y[0]), code(y[1])
    if bad:
        r.update(net=code(n), sta=code(s), cha=code(c), method='', sim=[],
                 axis=[], corr=[])
        return r
    d = spec(read_dv(path))
    r.update({k: d[k] for k in (
        'net', 'sta', 'cha', 'method', 'sim', 'axis', 'corr')})
    # the name is what counts
    r['net'], r['sta'] = code(n), code(s)
    return r


def folders(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(2):
        root = os.path.join(ctx.dir(), rng.choice(DIRS))
        os.makedirs(root)
        p = MonProject(root)
        if rng.random() < .4:
            p.dv['subdir'] = rng.choice(DIRS)
        out = os.path.join(root, p.dv['subdir'])
        os.makedirs(out, exist_ok=True)
        T, J = rng.randint(1, 4), rng.randint(2, 5)
        axis = list(range(-(J // 2), J - J // 2))
        bad = set()
        nets = rng.sample(NETS, 3)
        stas = rng.sample(STAS, 4)

        def fill(n):
            for _ in range(n):
                n_, s = rng.choice(nets), rng.choice(stas)
                c = rng.choice(CHAS)
                d = make(rng, T, J, 0, axis=axis, ids=(n_, s, c),
                         method='time' if rng.random() < .03 else 'stretch')
                f = os.path.join(out, 'DV-%s.%s.%s' % (n_, s, c))
                if os.path.exists(f + '.npz'):
                    continue
                d.save(f)
                if rng.random() < .08:
                    damage(rng, f + '.npz')
                    bad.add(f + '.npz')
        fill(rng.randint(3, 12))
        if rng.random() < .4:
            # an average over several stations
            d = make(rng, T, J, 0, axis=axis, ids=('av', 'av', 'av'))
            d.save(os.path.join(out, 'DV-av.av.av'))
            if rng.random() < .5:
                d = make(rng, T, J, 0, axis=axis,
                         ids=('geoav', 'geoav', 'HHZ-HHZ'))
                d.save(os.path.join(out, 'DV-geoav.geoav.HHZ-HHZ'))
        for _ in range(rng.randint(2, 5)):
            m = rng.choice(sorted(METHODS))
            name = rng.choice(METHODS[m])
            before = files(out)
            F = [record(os.path.join(out, f), os.path.join(out, f) in bad)
                 for f in before]
            ok, err = True, ''
            real = getattr(sm, 'glob', None)
            order = random.Random(rng.randrange(1 << 30))

            def listing(*a, **k):
                r = list(real(*a, **k))
                order.shuffle(r)
                return r
            try:
                if real is glob.glob:
                    sm.glob = listing
                with quiet(), np.errstate(all='ignore'):
                    e = p.run(lambda mon: mon.compute_components_average(
                        name))
            finally:
                if real is glob.glob:
                    sm.glob = real
            if e:
                ok, err = False, repr(e)[:300]
            after = files(out)
            new = []
            for f in sorted(set(after) - set(before)):
                d = read_dv(os.path.join(out, f))
                n, s, c = (f[3:-4].split('.') + ['', '', ''])[:3]
                new.append(dict(net=code(n), sta=code(s), name=code(c),
                                out=look(d, 100000)))
            ev.append(dict(
                ev='Folder', method=m, files=F, ok=ok, err=err, new=new,
                kept=all(after.get(f) == h for f, h in before.items())))
            if rng.random() < .4:
                fill(2)


def describe(b):
    return b['clause'] + ':' + b['event'].get('method', '')


def run(ctx):
    ctx.model('FolderMC', 'Folder_mc.cfg')
    ev = ctx.pmap(folders, ctx.pick(64, 1200))
    ctx.cov['runs'] = len([e for e in ev if e['ev'] == 'Folder'])
    ctx.cov['averages'] = sum(len(e.get('new', [])) for e in ev)
    ctx.validate('AverageTrace', ev, 'PairsTrace.cfg', describe, chunk=100)
