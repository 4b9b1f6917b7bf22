"""
C17: the local archive of waveforms. Archive.tla says what is kept in which
file and when the remote is asked (ArchiveMC: nothing that was written is
lost in any history of fetches, interruptions and changes of the remote).
Random histories of a real Store_Client with a scripted remote are recorded;
after every call the files are read with plain obspy.
"""
import glob
import os
import shutil
import tempfile

import numpy as np
from obspy import Stream, Trace, UTCDateTime, read, read_inventory
from obspy.clients.fdsn.header import FDSNNoDataException
from obspy.core.inventory import (
    Channel, Inventory, Network, Response, Site, Station)

from seismic.trace_data.waveform import FS_Client, Store_Client

from vf import code, quiet

# crosses the end of a year
BASE = UTCDateTime(2019, 12, 29)
DAY = 86400


def val(c, t):
    return (c * 37 + t * 11) % 251 - 120


class Died(Exception):
    pass


class Remote:
    """A remote service with given data that notes what it is asked"""
    def __init__(self, w):
        self.w, self.asked, self.asked2, self.nasked = w, [], [], 0
        self.mode = 'fine'

    def get_waveforms(self, n, s, lo, c, start, end, **kw):
        w = self.w
        i = w.index(n, s, lo, c)
        a, b = w.tick(start), w.tick(end)
        self.asked.append(dict(i=i, s=a, e=b))
        if self.mode == 'broken':
            raise OSError('connection lost')
        S = [t for t in sorted(w.remote.get(i, ())) if a <= t <= b]
        if self.mode == 'nodata' or not S and w.rng.random() < .5:
            raise FDSNNoDataException('no data')
        return w.stream(i, S)

    def get_stations(self, network, station, channel='*', **kw):
        self.nasked += 1
        w = self.w
        if self.mode == 'noinv':
            raise FDSNNoDataException('no inventory')
        I = [i for i, (n, s, lo, c) in enumerate(w.chans, 1)
             if n == network and s == station and channel in ('*', c)]
        self.asked2 += I
        return w.inventory(I)


class World:
    def __init__(self, rng, ev, root):
        self.rng, self.ev, self.root = rng, ev, root
        self.delta = rng.choice([7200, 10800, 14400])
        self.off = rng.choice([0, 0, 0, self.delta // 4])
        self.len = 2 * DAY // self.delta
        ids = [('A', 'S', '', 'HHZ'), ('A', 'S', '00', 'HHZ'),
               ('A', 'S', '00', 'HHE'), ('A', 'S1', '00', 'HHZ'),
               ('AB', 'S', '00', 'BHZ'), ('AB', 'S10', '', 'HHZ')]
        # one location per channel, so that the inventory is unique
        self.chans = rng.sample(ids[1:], rng.randint(1, 3))
        if rng.random() < .5:
            self.chans = [x for x in self.chans if x[3] != 'HHZ'
                          or x[:2] != ('A', 'S')] + [ids[0]]
        self.remote = {}
        self.dtype = rng.choice([np.int32, np.float32, np.float64])
        self.client = Remote(self)
        self.days = rng.choice([2, 4, 5])
        self.last = self.days * self.len
        self.grow()
        self.broken = None
        ev.append(dict(
            ev='Reset', len=self.len, step=2,
            chans=[dict(n=code(n), s=code(s), l=code(lo), c=code(c))
                   for n, s, lo, c in self.chans]))

    def index(self, n, s, lo, c):
        return self.chans.index((n, s, lo, c)) + 1

    # ticks of half a sample; samples have even ticks
    def time(self, t):
        return BASE + self.off + t * self.delta / 2

    def tick(self, u):
        return int(round((u - BASE - self.off) / self.delta * 2))

    def lenoff(self):
        return self.len

    def grow(self):
        rng = self.rng
        for i in range(1, len(self.chans) + 1):
            S = self.remote.setdefault(i, set())
            a, b = sorted(rng.randrange(0, self.last + 1) for _ in range(2))
            r = set(range(a + a % 2, b + 1, 2))
            x = rng.random()
            if not S and x < .6:
                r = set(range(0, self.last + 1, 2))
            if x < .8:
                S |= r
            else:
                S -= r

    def stream(self, i, S):
        """the samples as a remote may deliver them"""
        rng = self.rng
        n, s, lo, c = self.chans[i - 1]
        pieces, cur = [], []
        for t in S:
            if cur and t != cur[-1] + 2:
                pieces.append(cur)
                cur = []
            cur.append(t)
            if rng.random() < .04:
                pieces.append(cur)
                # sometimes the next one starts with the same sample
                cur = cur[-1:] if rng.random() < .5 else []
        if cur:
            pieces.append(cur)
        st = Stream()
        for p in pieces:
            st.append(Trace(
                np.array([val(i, t) for t in p], self.dtype),
                header=dict(network=n, station=s, location=lo, channel=c,
                            delta=self.delta, starttime=self.time(p[0]))))
        x = rng.random()
        if x < .2:
            rng.shuffle(st.traces)
        elif x < .4:
            st.merge()
        return st

    def inventory(self, I):
        nets = {}
        for i in I:
            n, s, lo, c = self.chans[i - 1]
            ch = Channel(
                c, lo, 1., 2., 3., 0., sample_rate=1 / self.delta,
                start_date=BASE - 9 * DAY,
                response=Response.from_paz([0], [-1], 1. + i))
            nets.setdefault(n, {}).setdefault(s, []).append(ch)
        return Inventory(networks=[
            Network(n, stations=[
                Station(s, 1., 2., 3., site=Site(name=s), channels=chs,
                        start_date=BASE - 9 * DAY, creation_date=BASE)
                for s, chs in x.items()])
            for n, x in nets.items()], source='x')

    # -- observation --------------------------------------------------------
    def samples(self, st):
        out = []
        for tr in st:
            m = np.ma.getmaskarray(np.ma.asarray(tr.data))
            for k in range(tr.stats.npts):
                if not m[k]:
                    out.append([self.tick(
                        tr.stats.starttime + k * tr.stats.delta),
                        int(round(float(tr.data[k])))])
        return out

    def observe(self):
        files = []
        d = os.path.join(self.root, 'mseed')
        for p in sorted(glob.glob(d + '/**/*', recursive=True)):
            if not os.path.isfile(p):
                continue
            y, n, s, cd, f = os.path.relpath(p, d).split(os.sep)
            n2, s2, lo, c, D, y2, j = f.split('.')
            day = int(round((UTCDateTime(
                year=int(y), julday=int(j)) - BASE) / DAY))
            i = 0
            if (n, s, c, y) == (n2, s2, cd[:-2], y2) \
                    and (n, s, lo, c) in self.chans:
                i = self.index(n, s, lo, c)
            st = read(p)
            for tr in st:
                if tr.id != '.'.join((n, s, lo, c)):
                    i = 0
            x = self.samples(st.sort(['starttime']))
            files.append(dict(i=i, day=day, x=x))
        inv = set()
        for p in glob.glob(os.path.join(self.root, 'inventory', '*.xml')):
            inv |= self.ids(read_inventory(p))
        return dict(files=files, inv=sorted(inv), empty=[
            [code(x) for x in os.path.relpath(p, d).split(os.sep)[1:]]
            for p in sorted(glob.glob(d + '/*/*/*'))
            if not glob.glob(p + '/*/*')], emptyc=[
            [code(x) for x in (n, s, c.split('.')[0])]
            for n, s, c in (os.path.relpath(p, d).split(os.sep)[1:]
                            for p in sorted(glob.glob(d + '/*/*/*/*'))
                            if not glob.glob(p + '/*'))])

    def ids(self, inv):
        return {
            self.index(n.code, s.code, c.location_code, c.code)
            for n in inv for s in n for c in s if c.response is not None}

    def emit(self, ev, ok=True, err='', **k):
        self.ev.append(dict(ev=ev, ok=ok, err=err, obs=self.observe(), **k))

    # -- calls --------------------------------------------------------------
    def call(self, f):
        r = self.client
        r.asked, r.asked2, r.nasked = [], [], 0
        with quiet():
            try:
                return True, '', f()
            except Exception as x:
                return False, repr(x), None

    def open(self, ro):
        def f():
            self.sc = Store_Client(self.client, self.root, read_only=ro)
        ok, err, _ = self.call(f)
        self.emit('Open', ok, err, ro=ro)

    def span(self):
        rng = self.rng
        a, b = sorted(rng.randint(0, self.last) for _ in range(2))
        x = rng.random()
        if x < .3:
            # midnights
            a, b = a - a % self.len, b - b % self.len
        elif x < .4:
            b = a + rng.choice([1, 2, 3])
        # spans begin and end at samples
        a, b = a - a % 2, b - b % 2
        return a, max(b, a + 2)

    def fetch(self):
        rng = self.rng
        i = rng.randint(1, len(self.chans))
        a, b = self.span()
        mode = rng.choice(
            ['fine'] * 6 + ['nodata', 'broken', 'noinv', 'dies'])
        self.client.mode = mode
        left = [rng.choice([0, 1, 2]) if mode == 'dies' else 99]
        orig = (Stream.write, Trace.write)

        def hook(o):
            def write(self, *args, **kw):
                if left[0] == 0:
                    raise Died('no space left')
                left[0] -= 1
                keep, left[0] = left[0], 99
                try:
                    return o(self, *args, **kw)
                finally:
                    left[0] = keep
            return write
        Stream.write, Trace.write = hook(orig[0]), hook(orig[1])
        try:
            n, s, lo, c = self.chans[i - 1]
            ok, err, st = self.call(lambda: self.sc.get_waveforms(
                n, s, lo, c, self.time(a), self.time(b)))
        finally:
            Stream.write, Trace.write = orig
            self.client.mode = 'fine'
        r = self.client
        self.emit(
            'Fetch', ok, err, i=i, s=a, e=b, mode=mode,
            remote=sorted(self.remote[i]), asked=r.asked,
            asked2=sorted(set(r.asked2)),
            out=self.samples(st) if ok else [],
            resp=[hasattr(tr.stats, 'response') for tr in st] if ok else [])

    def local(self):
        i = self.rng.randint(1, len(self.chans))
        a, b = self.span()
        n, s, lo, c = self.chans[i - 1]
        ok, err, st = self.call(lambda: self.sc._load_local(
            n, s, lo, c, self.time(a), self.time(b), True, False))
        self.emit('Local', ok, err, i=i, s=a, e=b,
                  out=self.samples(st) if ok else [])

    def fs(self):
        i = self.rng.randint(1, len(self.chans))
        a, b = self.span()
        n, s, lo, c = self.chans[i - 1]
        ok, err, st = self.call(lambda: FS_Client(
            os.path.join(self.root, 'mseed')).get_waveforms(
                n, s, lo, c, self.time(a), self.time(b)))
        self.emit('FS', ok, err, i=i, s=a, e=b,
                  out=self.samples(st) if ok else [])

    def windows(self):
        i = self.rng.randint(1, len(self.chans))
        n, s, lo, c = self.chans[i - 1]
        a, b = self.span()
        inc = self.rng.choice([self.len, self.len // 2, 2, 4])
        if self.off:
            return
        # the windows read all locations of a channel
        if sum(x[:2] == (n, s) and x[3] == c for x in self.chans) > 1:
            return
        ok, err, st = self.call(lambda: list(self.sc._generate_time_windows(
            n, s, c, self.time(a), self.time(b), inc * self.delta // 2)))
        self.emit('Windows', ok, err, i=i, s=a, e=b, inc=inc,
                  wins=[self.samples(x) for x in st] if ok else [])

    def stations(self):
        net = self.rng.choice([None, '*', 'A', 'AB', 'A*', '?', 'X'])
        ok, err, out = self.call(
            lambda: self.sc.get_available_stations(net))
        self.emit('Stations', ok, err, net=code(net or '*'),
                  out=[[code(x) for x in y] for y in out or []])

    def channels(self):
        rng = self.rng
        net = rng.choice(['*', 'A', 'AB', 'A*'])
        sta = rng.choice(['*', 'S', 'S1', 'S1*', 'S?'])
        comp = rng.choice(['Z', 'E', '?', '*'])
        ok, err, out = self.call(
            lambda: self.sc._translate_wildcards(net, sta, comp))
        self.emit('Channels', ok, err, net=code(net), sta=code(sta),
                  comp=code(comp),
                  out=[[code(x) for x in y] for y in out or []])

    def times(self):
        rng = self.rng
        n, s, lo, c = rng.choice(self.chans)
        if rng.random() < .2:
            n, s = rng.choice([('A', 'E'), ('X', 'S'), ('AB', 'S1')])
        ok, err, out = self.call(lambda: self.sc._get_times(n, s))
        x = []
        if ok and out[0] is not None:
            x = [int(round((t - BASE) / DAY)) for t in out]
        self.emit('Times', ok, err, net=code(n), sta=code(s), out=x)

    def inv(self):
        n, s, lo, c = self.rng.choice(self.chans)
        ok, err, out = self.call(
            lambda: self.sc.select_inventory_or_load_remote(n, s))
        self.emit('Inventory', ok, err, net=code(n), sta=code(s),
                  nasked=self.client.nasked,
                  out=sorted(self.ids(out)) if ok else [])

    def empty(self):
        """a station that has no data, and other directories"""
        y = self.rng.choice(['2019', '2020', 'back', 'old_', '20x9'])
        os.makedirs(os.path.join(self.root, 'mseed', y, 'A', 'E'),
                    exist_ok=True)
        self.emit('Empty')


def histories(ctx, rng, ev):
    root = tempfile.mkdtemp(dir=ctx.tmp)
    try:
        w = World(rng, ev, root)
        w.open(False)
        ops = [w.fetch] * 8 + [w.local] * 2 + [
            w.fs, w.windows, w.stations, w.channels, w.times, w.inv]
        for _ in range(18):
            x = rng.random()
            if x < .08:
                w.open(rng.random() < .3)
            elif x < .12:
                w.grow()
            elif x < .14:
                w.empty()
            else:
                rng.choice(ops)()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('ArchiveMC', ctx.pick('Archive_mc.cfg', 'Archive_big.cfg'))
    ev = ctx.pmap(histories, ctx.pick(96, 2500))
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('ArchiveTrace', ev, 'PairsTrace.cfg', describe, chunk=500)
    ctx.assumptions = [
        'samples are aligned and pieces that overlap hold equal values',
        'a channel is recorded at one location and never changes its rate']
