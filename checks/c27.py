"""
C27: reading from file structures. FileTree.tla says which samples a request
returns; FileTreeMC reads from all trees of a few files. Trees of real files
with hours, days, months or years per file, and of several structures, are
written here (with names of their own making) and read by FS_Client;
FileTreeTrace decides what it returns.
"""
import os
import shutil

import numpy as np
from obspy import Stream, Trace, UTCDateTime

from seismic.trace_data.waveform import FS_Client

from vf import quiet

# seconds per tick, number of sections
KINDS = dict(hour=(600, 6), day=(3600, 5), month=(14400, 4), year=(21600, 3),
             none=(3600, 1))
TIMES = dict(
    hour=[UTCDateTime(2019, 12, 31, 21), UTCDateTime(2020, 2, 28, 22)],
    day=[UTCDateTime(2019, 12, 29), UTCDateTime(2020, 2, 27),
         UTCDateTime(2021, 4, 28)],
    month=[UTCDateTime(2019, 11, 1), UTCDateTime(2020, 1, 1),
           UTCDateTime(2021, 6, 1)],
    year=[UTCDateTime(2019, 1, 1), UTCDateTime(2020, 1, 1)],
    none=[UTCDateTime(2020, 2, 28)])
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
       'Nov', 'Dec']


def structures(kind, root):
    """descriptor and the name of a file for id and time"""
    if kind == 'day':
        return [
            (root, lambda n, s, lo, c, t: '%d/%s/%s/%s.D/%s.%s.%s.%s.D.%d.%03d'
             % (t.year, n, s, c, n, s, lo, c, t.year, t.julday)),
            ([root, '%Y', '%net', ['%sta', '_', '%CHA'],
              ['%LOC', '.', '%j']],
             lambda n, s, lo, c, t: '%d/%s/%s_%s/%s.%03d' % (
                 t.year, n.lower(), s.lower(), c, lo, t.julday)),
            ([root, ['%Y', '-', '%m', '-'], [
                '%NET', '.', '%STA', '.', '%LOC', '.', "%CHA('HH','x')", '_',
                '%d', '.mseed']],
             lambda n, s, lo, c, t: '%d-%02d-/%s.%s.%s.%s_%02d.mseed' % (
                 t.year, t.month, n, s, lo, c.replace('HH', 'x'), t.day)),
            # all channels in one file
            ([root, ['%y'], ['%NET', "%STA('S', '')", '%loc', '.', '%j']],
             lambda n, s, lo, c, t: '%02d/%s%s%s.%03d' % (
                 t.year % 100, n, s.replace('S', ''), lo, t.julday)),
        ]
    if kind == 'hour':
        return [
            ([root, '%Y', '%j', ['%NET', '.', '%STA', '.', '%LOC', '.',
                                 '%CHA', '.', '%H']],
             lambda n, s, lo, c, t: '%d/%03d/%s.%s.%s.%s.%02d' % (
                 t.year, t.julday, n, s, lo, c, t.hour)),
            ([root, ['%Y', '%m', '%d'], '%NET', ['%STA', "%CHA('Z','V')"],
              ['l', '%LOC', '.', '%H', '00']],
             lambda n, s, lo, c, t: '%d%02d%02d/%s/%s%s/l%s.%02d00' % (
                 t.year, t.month, t.day, n, s, c.replace('Z', 'V'), lo,
                 t.hour))]
    if kind == 'month':
        return [
            ([root, '%Y', ['%NET', '_', '%STA', '_', '%LOC', '_', '%CHA', '_',
                           '%m']],
             lambda n, s, lo, c, t: '%d/%s_%s_%s_%s_%02d' % (
                 t.year, n, s, lo, c, t.month)),
            ([root, '%Y', '%b', ['%net', '%sta', '%loc', '%cha']],
             lambda n, s, lo, c, t: '%d/%s/%s' % (
                 t.year, MON[t.month - 1], (n + s + lo + c).lower()))]
    if kind == 'year':
        return [
            ([root, '%NET', ['%STA', '.', '%LOC', '.', '%CHA', '.', '%Y']],
             lambda n, s, lo, c, t: '%s/%s.%s.%s.%d' % (n, s, lo, c, t.year)),
            ([root, '%y', '%NET', ['%STA', '.', '%LOC', '.', '%CHA']],
             lambda n, s, lo, c, t: '%02d/%s/%s.%s.%s' % (
                 t.year % 100, n, s, lo, c))]
    return [([root, 'all', '%NET', ['%STA', '.', '%LOC', '.', '%CHA']],
             lambda n, s, lo, c, t: 'all/%s/%s.%s.%s' % (n, s, lo, c))]


def following(kind, t):
    if kind == 'hour':
        return t + 3600
    if kind == 'day':
        return t + 86400
    if kind == 'month':
        return UTCDateTime(t.year + t.month//12, t.month % 12 + 1, 1)
    if kind == 'year':
        return UTCDateTime(t.year + 1, 1, 1)
    return t + 5*86400


class World:
    def __init__(self, ctx, rng, ev):
        self.rng, self.ev = rng, ev
        self.root = ctx.dir()
        self.kind = rng.choice(sorted(KINDS))
        self.tick, n = KINDS[self.kind]
        self.base = rng.choice(TIMES[self.kind])
        # in ticks
        self.secs, t = [], self.base
        for _ in range(n + 1):
            self.secs.append(round((t - self.base)/self.tick))
            t = following(self.kind, t)
        k = rng.randrange(len(structures(self.kind, 'x')))
        self.fs, self.name = structures(self.kind, self.root)[k]
        self.shared = self.kind == 'day' and k == 3
        self.write()

    def write(self):
        rng = self.rng
        n = len(self.secs) - 1
        ids = [(net, sta, loc, cha) for net in ('AB', 'X')
               for sta in ('S1', 'T') for loc in ('', '00')
               for cha in ('HHZ', 'HHE', 'BHZ')]
        first = rng.choice(ids)
        near = [i for i in ids if sum(a != b for a, b in zip(i, first)) <= 1]
        self.ids = [first] + rng.sample(
            [i for i in near if i != first], rng.randint(0, 3))
        if self.shared:
            # in one file
            self.ids = [i for i in ids if i[:3] == first[:3]]
        self.have, files = {}, {}
        for c, i in enumerate(self.ids):
            if not c or not self.shared:
                late = [rng.choice([0, 0, 1, 2]) for _ in range(n)] + [0]
                runs = []
                for k in range(n):
                    a, b = self.secs[k] + late[k], self.secs[k+1] + late[k+1]
                    parts = [(a, b - 1)]
                    x = rng.random()
                    if x < .2:
                        parts = []
                    elif x < .5 and b - a > 4:
                        # a gap
                        p, q = sorted(rng.sample(range(a, b + 1), 2))
                        parts = [r for r in ((a, p - 1), (q, b - 1))
                                 if r[0] <= r[1]]
                    runs.append(parts)
            self.have[i] = [list(r) for parts in runs for r in parts]
            for k, parts in enumerate(runs):
                p = os.path.join(self.root, self.name(
                    *i, self.base + self.secs[k]*self.tick))
                for a, b in parts:
                    files.setdefault(p, []).append(Trace(
                        np.arange(a, b + 1, dtype=np.int32) + 100000*c,
                        header=dict(zip(('network', 'station', 'location',
                                         'channel'), i),
                                    delta=self.tick,
                                    starttime=self.base + a*self.tick)))
        for p, trs in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            Stream(trs).write(p, format='MSEED')

    def read(self):
        rng = self.rng
        c = rng.randrange(len(self.ids))
        i = self.ids[c]
        end = self.secs[-1]
        x = rng.random()
        s = rng.randint(0, end - 2)
        e = rng.randint(s + 1, min(end + 2, s + rng.choice([3, 30, 10000])))
        if x < .5:
            # from about the start of one section to that of another
            a, b = sorted(rng.choices(self.secs, k=2))
            s = max(0, a + rng.randint(-3, 3))
            e = max(s + 1, b + rng.randint(-3, 3))
        trim = rng.random() < .85
        S, E = self.base + s*self.tick, self.base + e*self.tick
        if rng.random() < .3:
            S, E = S.datetime, E.datetime
        st, ok, err = Stream(), True, ''
        with quiet():
            try:
                st = FS_Client(self.fs).get_waveforms(
                    *i, S, E, trim=trim, **(
                        dict(attach_response=False)
                        if rng.random() < .3 else {}))
            except Exception as x:
                ok, err = False, repr(x)
        got = []
        for tr in st.split():
            t = (tr.stats.starttime - self.base)/self.tick
            t0 = int(round(t)) if abs(t - round(t)) < 1e-3 else -999
            v = np.asarray(tr.data, float)
            cut = np.where(np.diff(v) != 1)[0] + 1
            for a, b in zip([0, *cut], [*cut, len(v)]):
                got.append([t0 + int(a), t0 + int(b) - 1, int(v[a])])
        self.ev.append(dict(
            ev='Read', ok=ok, err=err, s=s, e=e, trim=trim, channel=c,
            have=self.have[i], got=got, about=repr((
                self.fs, i, S, E)).replace(self.root, 'root'),
            id=all(tr.id == '.'.join(i) for tr in st)
            and all(tr.stats.delta == self.tick for tr in st)))


def histories(ctx, rng, ev):
    ev.append(dict(ev='Reset'))
    for _ in range(2):
        w = World(ctx, rng, ev)
        for _ in range(8):
            w.read()
        shutil.rmtree(w.root, ignore_errors=True)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('FileTreeMC', ctx.pick('FileTree_mc.cfg', 'FileTree_big.cfg'),
              workers=8)
    ev = ctx.pmap(histories, ctx.pick(160, 3000))
    ctx.cov['calls'] = dict(reads=sum(e['ev'] == 'Read' for e in ev))
    ctx.validate('FileTreeTrace', ev, 'PairsTrace.cfg', describe, chunk=600)
    ctx.assumptions = [
        'a sample lies in the file of its section or of the one before',
        'the last time in the descriptor is the section of the files; '
        'channels of one file have the same times',
        'requests that begin and end on samples']
