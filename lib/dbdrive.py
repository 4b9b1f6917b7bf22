"""
Drives the real correlation database and records events for CorrDBTrace.
"""
import copy
import os

import h5py
import numpy as np
from obspy import UTCDateTime
from obspy.core import Stats

from seismic.db.corr_hdf5 import CorrelationDataBase
from seismic.correlate.stream import CorrTrace, CorrStream

from vf import code, quiet
import warnings

BASE = UTCDateTime(2015, 1, 1)


def stamp(t):
    """Text of a time as the database uses it (day-of-year format)."""
    return '%04d%03dT%02d%02d%02d.%04dZ' % (
        t.year, t.julday, t.hour, t.minute, t.second, t.microsecond // 100)


def ident(n, s, c):
    return dict(n=code(n), s=code(s), c=code(c))


def base_co():
    return {
        'subdir': 'corr', 'read_start': '2015-01-01 00:00:01.0',
        'read_end': '2015-01-02', 'sampling_rate': 25,
        'remove_response': False, 'combination_method': 'betweenStations',
        'preprocess_subdiv': True, 'read_len': 7200, 'read_inc': 7200,
        'allow_different_params': False,
        'preProcessing': [
            {'function':
             'seismic.correlate.preprocessing_stream.cos_taper_st',
             'args': {'taper_len': 100, 'lossless': True}}],
        'subdivision': {
            'corr_inc': 3600, 'corr_len': 3600,
            'recombine_subdivision': True, 'delete_subdivision': False},
        'corr_args': {
            'TDpreProcessing': [
                {'function':
                 'seismic.correlate.preprocessing_td.detrend',
                 'args': {'type': 'linear'}}],
            'FDpreProcessing': [],
            'lengthToSave': 25, 'center_correlation': True,
            'normalize_correlation': True}}


def co_event(co):
    """Nested options as the specification sees them (Params.tla)."""
    leaves = []

    def rec(d, pre):
        for k, v in d.items():
            if pre == '' and k == 'preProcessing':
                continue
            if isinstance(v, dict):
                rec(v, pre + k + '.')
            else:
                leaves.append([pre + k, repr(v)])
    if co is None:
        return dict(leaves=[], pre=[])
    rec(co, '')
    return dict(leaves=sorted(leaves), pre=[
        [s['function'], repr(sorted(s.get('args', {}).items()))]
        for s in co.get('preProcessing', [])])


class Tape:
    """The correlations that were handed to the code, by token."""

    def __init__(self):
        self.by = {}
        self.n = 0

    def make(self, a, b, st, dur=3599., loc=('00', '10'), npts=9, extra=None):
        """A correlation of channels a, b (n, s, c tuples), new token."""
        self.n += 1
        v = self.n
        hs = []
        for (n, s, c), lo in zip((a, b), loc):
            h = Stats()
            h.network, h.station, h.channel, h.location = n, s, c, lo
            h.sampling_rate = 4.
            h.npts = int(dur * 4) + 1
            h.starttime = st
            h['stla'], h['stlo'], h['stel'] = 10. + v, 20., 30. + len(s)
            h['processing'] = ['step %d' % v, 'other']
            hs.append(h)
        data = (np.arange(npts) * 1000 + v).astype(np.float32)
        half = (npts - 1) / 2 / 4.
        with quiet():
            tr = CorrTrace(data, header1=hs[0], header2=hs[1],
                           start_lag=-half, end_lag=half)
        if extra:
            tr.stats.update(extra)
        self.by[v] = (np.array(tr.data, copy=True),
                      copy.deepcopy(dict(tr.stats)))
        return v, tr

    def token(self, data, stats=None):
        """Token of data (and header) read back; -1 if it matches none."""
        data = np.asarray(data)
        for v, (d, h) in self.by.items():
            if d.shape == data.shape and np.array_equal(
                    d, data) and d.dtype == data.dtype:
                if stats is not None and not same_header(h, stats):
                    return -2
                return v
        return -1


def same_header(h, stats):
    s = dict(stats)
    if set(h) != set(s):
        return False
    for k, x in h.items():
        y = s[k]
        if isinstance(x, UTCDateTime):
            if not isinstance(y, UTCDateTime) or abs(x - y) >= 1e-4:
                return False
        elif isinstance(x, (list, tuple)):
            if list(x) != list(y):
                return False
        elif isinstance(x, (int, float, np.floating, np.integer)):
            if not (x == y or (np.isnan(x) and np.isnan(y))):
                return False
        elif x != y:
            return False
    return True


def walk(path):
    """All correlation data sets of a file: (path fields, data)."""
    out = []
    if not os.path.exists(path):
        return out
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and name != 'co':
                out.append((name.split('/'), np.array(obj)))
        f.visititems(visit)
    return out


def content(path, tape):
    res = []
    for p, data in walk(path):
        if len(p) != 6 or '-' not in p[1]:
            res.append(dict(tag=code('?' + '/'.join(p)), a=ident('', '', ''),
                            b=ident('', '', ''), st=[], et=[], v=-1))
            continue
        n, s, c = (x.split('-') for x in p[1:4])
        res.append(dict(
            tag=code(p[0]), a=ident(n[0], s[0], c[0]),
            b=ident(n[1], s[1], c[1]), st=code(p[4]), et=code(p[5]),
            v=tape.token(data)))
    return res


def digest(path):
    """Everything in the file, for 'was it modified at all'."""
    if not os.path.exists(path):
        return None
    items = []
    with h5py.File(path, 'r') as f:
        def visit(name, obj):
            items.append((
                name, sorted((k, str(np.array(v)))
                             for k, v in obj.attrs.items()),
                np.array(obj).tobytes() if isinstance(obj, h5py.Dataset)
                else b''))
        f.visititems(visit)
    return sorted(items)


class DB:
    """One database file under test; appends events to `ev`."""

    def __init__(self, path, tape, ev):
        self.path, self.tape, self.ev = path, tape, ev
        self.h = self.cm = None
        self.rw = False
        ev.append(dict(ev='Reset'))

    def _call(self, fn):
        with quiet(), warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = fn()
                return True, '', r, len(w) > 0
            except Exception as e:
                return False, type(e).__name__, None, len(w) > 0

    def _flushed(self):
        """Content as any other reader would see it."""
        if self.h is not None and self.rw:
            try:
                self.h.flush()
            except Exception:
                pass
        return content(self.path, self.tape)

    def open(self, mode='a', co=None, force=False):
        before = digest(self.path)

        def fn():
            self.cm = CorrelationDataBase(
                self.path, corr_options=co, mode=mode, _force=force)
            self.h = self.cm.__enter__()
        ok, err, _, _ = self._call(fn)
        self.rw = ok and self.h.mode == 'r+'
        if not ok:
            self.h = self.cm = None
        fileco = None
        try:
            with quiet():
                if ok:
                    fileco = self.h.get_corr_options()
                else:
                    with CorrelationDataBase(self.path, mode='r') as h:
                        fileco = h.get_corr_options()
        except KeyError:
            pass
        if ok and self.rw:
            self.h.flush()
        after = digest(self.path)
        # what an accepted opening may change: recording the parameters
        strip = (lambda d: None if d is None else
                 [x for x in d if x[0] != 'co'])
        hadco = before is not None and any(x[0] == 'co' for x in before)
        if not ok or hadco:
            same = before == after
        else:
            same = (strip(before) or []) == (strip(after) or [])
        # what kind of opening the database actually granted
        self.ev.append(dict(
            ev='Open', mode=mode, hasco=co is not None, co=co_event(co),
            force=force, ok=ok, err=err, unchanged=same,
            filecoset=True, fileco=co_event(fileco),
            content=content(self.path, self.tape)))
        self._d0 = after
        return ok

    def close(self):
        ok, err, _, _ = self._call(lambda: self.cm.__exit__(None, None, None))
        self.h = self.cm = None
        self.ev.append(dict(
            ev='Close', unchanged=digest(self.path) == self._d0, ok=ok,
            content=content(self.path, self.tape)))

    def add(self, tag, items):
        """items: list of (a, b, st, (token, trace))"""
        trs = [x[3][1].copy() for x in items]
        arg = trs[0] if len(trs) == 1 else CorrStream(trs)
        ok, err, _, w = self._call(lambda: self.h.add_correlation(arg, tag))
        self.ev.append(dict(
            ev='Add', tag=code(tag), ok=ok, err=err, warned=w,
            batch=[dict(a=ident(*a), b=ident(*b), st=code(stamp(
                tr.stats.corr_start)), et=code(stamp(tr.stats.corr_end)),
                v=v) for a, b, st, (v, tr) in items],
            content=self._flushed()))

    def remove(self, tag, a, b, t):
        """t: UTCDateTime or pattern"""
        ok, err, _, w = self._call(lambda: self.h.remove_data(
            a[0] + '-' + b[0], a[1] + '-' + b[1], a[2] + '-' + b[2], tag, t))
        pat = t if isinstance(t, str) else stamp(t)
        self.ev.append(dict(
            ev='Remove', tag=code(tag), a=ident(*a), b=ident(*b),
            pat=code(pat), ok=ok, err=err, warned=w,
            content=self._flushed()))

    def _res(self, st):
        out = []
        for tr in st:
            s = tr.stats
            try:
                n, sta, c = (s[k].split('-') for k in (
                    'network', 'station', 'channel'))
                k = dict(a=ident(n[0], sta[0], c[0]),
                         b=ident(n[1], sta[1], c[1]),
                         st=code(stamp(s.corr_start)),
                         et=code(stamp(s.corr_end)))
            except Exception:
                k = dict(a=ident('?', '', ''), b=ident('', '', ''),
                         st=[], et=[])
            k['v'] = self.tape.token(tr.data, tr.stats)
            out.append(k)
        return out

    def get(self, tag, net, sta, cha, t0=None, t1=None):
        """net/sta/cha: pairs of codes or '*'"""
        f = (lambda x: '*' if x == '*' else '-'.join(x))
        ok, err, st, w = self._call(lambda: self.h.get_data(
            f(net), f(sta), f(cha), tag, t0, t1))
        res = self._res(st) if ok else []
        # the tag is not part of the header; with an exact tag it is known
        for r in res:
            r['tag'] = code(tag)
        two = (lambda x: ('*', '*') if x == '*' else x)
        q = dict(
            tag=code(tag), n1=code(two(net)[0]), n2=code(two(net)[1]),
            s1=code(two(sta)[0]), s2=code(two(sta)[1]),
            c1=code(two(cha)[0]), c2=code(two(cha)[1]),
            st=code('*' if t0 is None else stamp(t0)),
            et=code('*' if t1 is None else stamp(t1)))
        self.ev.append(dict(ev='Get', q=q, ok=ok, err=err, res=res))

    def channels(self, tag, net, sta):
        ok, err, r, w = self._call(lambda: self.h.get_available_channels(
            tag, '-'.join(net), '-'.join(sta)))
        self.ev.append(dict(
            ev='Channels', tag=code(tag), na=code(net[0]), nb=code(net[1]),
            sa=code(sta[0]), sb=code(sta[1]), ok=ok, err=err,
            res=[[code(x) for x in c.split('-')] for c in r] if ok else []))

    def starts(self, tag, net, sta, pat):
        """pat: a channel pattern or a list of them"""
        ok, err, r, w = self._call(lambda: self.h.get_available_starttimes(
            '-'.join(net), '-'.join(sta), tag, pat))
        res = []
        if ok:
            for c, times in r.items():
                p = (c.split('-') + ['?'])[:2]
                res.append(dict(ca=code(p[0]), cb=code(p[1]),
                                starts=[code(t) for t in times]))
        self.ev.append(dict(
            ev='Starts', tag=code(tag), na=code(net[0]), nb=code(net[1]),
            sa=code(sta[0]), sb=code(sta[1]), ok=ok, err=err,
            pats=[code(p) for p in ([pat] if isinstance(pat, str) else pat)],
            res=res))
