"""
Runs the real Correlator on small synthetic projects and records what it
stored. Waveforms are sparse: wavelets (1, -2, 1) * amplitude, which survive
detrending exactly, so that every stored correlation is a vector of integers
that the specification can compute from the samples of the window.
Sampling rate 1 Hz; times in events are seconds relative to BASE.
"""
import copy
import logging
import os
import shutil
import warnings

import h5py
import numpy as np
from obspy import Stream, Trace, UTCDateTime

import seismic.correlate.correlate as sc
from seismic.db import corr_hdf5
from seismic.trace_data.waveform import Store_Client, SDS_FMTSTR

import fakempi
from vf import code, quiet

BASE = UTCDateTime(2014, 12, 31, 23, 40)
SCALE = 60


class Crash(BaseException):
    pass


def rel(t):
    return int(round(t - BASE))


class Channel:
    """A channel: id, recorded segments [a, b] and its non-zero samples."""

    def __init__(self, n, s, c, loc='00'):
        self.n, self.s, self.c, self.loc = n, s, c, loc
        self.segs, self.x = [], {}

    def pulse(self, t, amp):
        for k, w in ((-1, 1), (0, -2), (1, 1)):
            self.x[t + k] = self.x.get(t + k, 0) + w * amp

    def event(self):
        x = sorted([t, v] for t, v in self.x.items() if v and any(
            a <= t <= b for a, b in self.segs))
        d0 = x[0][0] if x else 0
        d = [0]*(x[-1][0] - d0 + 1) if x else []
        for t, v in x:
            d[t - d0] = v
        return dict(id=dict(n=code(self.n), s=code(self.s), c=code(self.c)),
                    segs=[list(s) for s in self.segs], x=x, d0=d0, d=d)

    def stream(self):
        st = Stream()
        for a, b in self.segs:
            d = np.zeros(b - a + 1, dtype=np.int32)
            for t, v in self.x.items():
                if a <= t <= b:
                    d[t - a] = v
            st.append(Trace(d, dict(
                network=self.n, station=self.s, channel=self.c,
                location=self.loc, sampling_rate=1., starttime=BASE + a)))
        return st


class Project:
    def __init__(self, root, cfg, ev):
        """cfg: start, inc, len, ci, cl, S, method, xcombis, recomb, dele"""
        self.root, self.cfg, self.ev = root, cfg, ev
        self.corr = os.path.join(root, 'corr')
        ev.append(dict(ev='Reset', cfg={k: cfg[k] for k in (
            'start', 'inc', 'len', 'ci', 'cl', 'S', 'recomb', 'dele')}))

    @staticmethod
    def _xc(x):
        p = x.split('.')
        f = [y.split('-') for y in p]
        if len(p) == 2:
            f.append(['*', '*'])
        return dict(n1=code(f[0][0]), n2=code(f[0][1]), s1=code(f[1][0]),
                    s2=code(f[1][1]), c1=code(f[2][0]), c2=code(f[2][1]))

    def store(self, channels):
        """(Re)write the waveform archive."""
        self.channels = channels
        ms = os.path.join(self.root, 'mseed')
        if os.path.isdir(ms):
            shutil.rmtree(ms)
        for ch in channels:
            day = {}
            for tr in ch.stream():
                t = tr.stats.starttime
                while t <= tr.stats.endtime:
                    nxt = UTCDateTime(t.year, t.month, t.day) + 86400
                    day.setdefault((t.year, t.julday), Stream()).append(
                        tr.slice(t, nxt - 1))
                    t = nxt
            for (y, d), st in day.items():
                f = os.path.join(ms, SDS_FMTSTR.format(
                    network=ch.n, station=ch.s, location=ch.loc,
                    channel=ch.c, year=y, doy=d, sds_type='D'))
                os.makedirs(os.path.dirname(f), exist_ok=True)
                st.write(f, format='MSEED', encoding='INT32')

    def options(self, end, net, sta, comp, subdiv, separate=False,
                method=None, xcombis=None):
        c = self.cfg
        method = method or c['method']
        xcombis = xcombis or c.get('xcombis')
        self.method, self.xcombis = method, xcombis
        return dict(
            proj_dir=self.root, log_subdir='log', log_level='CRITICAL',
            save_comps_separately=separate,
            net=dict(network=net, station=sta, component=comp),
            co=dict(
                subdir='corr', read_start=str(BASE + c['start']),
                read_end=str(BASE + end), read_len=c['len'],
                read_inc=c['inc'], sampling_rate=1, remove_response=False,
                combination_method=method,
                xcombinations=copy.copy(xcombis),
                preProcessing=[], preprocess_subdiv=subdiv,
                subdivision=dict(
                    corr_inc=c['ci'], corr_len=c['cl'],
                    recombine_subdivision=c['recomb'],
                    delete_subdivision=c['dele']),
                corr_args=dict(
                    TDpreProcessing=c.get('td', []),
                    FDpreProcessing=c.get('fd', []),
                    lengthToSave=c['S'], center_correlation=True,
                    normalize_correlation=False, combinations=[])))

    def run(self, end, net='*', sta='*', comp='*', subdiv=False, ranks=1,
            crash=0, separate=False, post=False, method=None, xcombis=None,
            rec=None):
        """
        One run. crash: fail at this write (0: never), post: right after
        the data set was created (before its header).
        """
        # the channels the selection names
        chans = [c for c in self.channels if selected(c, net, sta, comp)]
        opts = self.options(
            end, net, sta, comp, subdiv, separate, method, xcombis)
        sclient = Store_Client(None, self.root, read_only=False)
        attempts, count = [], [0]
        lock = __import__('threading').Lock()
        add0 = corr_hdf5.DBHandler.add_correlation
        cds0 = h5py.Group.create_dataset

        def add(self_, data, tag='subdivision'):
            for tr in ([data] if isinstance(data, Trace) else data):
                attempts.append(dict(tag=tag, **key_of(tr.stats)))
            return add0(self_, data, tag)

        def cds(self_, *a, **k):
            with lock:
                count[0] += 1
                n = count[0]
            if n == crash and not post:
                raise Crash()
            r = cds0(self_, *a, **k)
            if n == crash:
                raise_in_header(r)
            return r

        def raise_in_header(ds):
            state['bad'] = ds.name

        state = {'bad': None}
        set0 = h5py.AttributeManager.__setitem__

        def seta(self_, k, v):
            if state['bad'] is not None:
                state['bad'] = None
                raise Crash()
            return set0(self_, k, v)

        def body(rank):
            c = sc.Correlator(sclient, copy.deepcopy(opts))
            c.pxcorr()
            return True

        mpi0 = sc.MPI
        show0 = warnings.showwarning
        with quiet():
            try:
                sc.MPI = fakempi.MPI
                corr_hdf5.DBHandler.add_correlation = add
                h5py.Group.create_dataset = cds
                h5py.AttributeManager.__setitem__ = seta
                with fakempi.accesses(self.root, rec):
                    res, err = fakempi.run(ranks, body)
            finally:
                sc.MPI = mpi0
                corr_hdf5.DBHandler.add_correlation = add0
                h5py.Group.create_dataset = cds0
                h5py.AttributeManager.__setitem__ = set0
                logging.captureWarnings(False)
                warnings.showwarning = show0
                clean_logging()
        if err is not None:
            # let go of the files
            import gc
            gc.collect()
        self.writes = count[0]
        self.ev.append(dict(
            ev='Run', end=end, subdiv=subdiv, ranks=ranks,
            method=self.method, hasx=self.xcombis is not None,
            xcombis=[self._xc(x) for x in self.xcombis or []],
            chans=[c.event() for c in chans],
            crash=bool(crash) and count[0] >= crash, ok=err is None,
            err=err[0] if err else '', msg=err[1] if err else '',
            attempts=attempts, content=self.content()))
        return err

    def results(self):
        """All stored correlations as scaled integers."""
        out = []
        if not os.path.isdir(self.corr):
            return out
        for fn in sorted(os.listdir(self.corr)):
            with h5py.File(os.path.join(self.corr, fn), 'r') as f:
                def visit(name, obj):
                    if isinstance(obj, h5py.Dataset) and name != 'co':
                        a = dict(obj.attrs)
                        out.append(dict(
                            k=fn + ':' + name,
                            v=ints(obj) + ints([
                                a.get('start_lag', 0), a.get('npts', 0)])))
                f.visititems(visit)
        return sorted(out, key=lambda r: r['k'])

    def content(self):
        out = []
        if not os.path.isdir(self.corr):
            return out
        for fn in sorted(os.listdir(self.corr)):
            with h5py.File(os.path.join(self.corr, fn), 'r') as f:
                def visit(name, obj):
                    if isinstance(obj, h5py.Dataset) and name != 'co':
                        out.append(record(name, obj))
                f.visititems(visit)
        return out


def ints(x):
    """An array as integers: parts of 10000 of its maximum."""
    x = np.asarray(x, dtype=float).ravel()
    fin = np.isfinite(x)
    m = np.max(np.abs(x[fin])) if fin.any() else 1
    y = np.full(len(x), -99999, dtype=int)
    y[fin] = np.round(x[fin] / (m or 1) * 10000).astype(int)
    return y.tolist()


def record(name, ds):
    p = name.split('/')
    n, s, c = (x.split('-') for x in p[1:4])
    d = np.array(ds, dtype=float)
    nz = [[i, int(round(v * SCALE))] for i, v in enumerate(d)
          if np.isfinite(v) and abs(v) > .05]
    a = dict(ds.attrs)
    hdr = 'start_lag' in a and 'corr_start' in a and 'processing' in a
    return dict(
        tag='subdivision' if p[0] == 'subdivision' else (
            'stack' if p[0].startswith('stack_') else p[0]),
        a=dict(n=code(n[0]), s=code(s[0]), c=code(c[0])),
        b=dict(n=code(n[1]), s=code(s[1]), c=code(c[1])),
        st=rel(UTCDateTime(p[4])), et=rel(UTCDateTime(p[5])),
        hdr=bool(hdr), finite=bool(np.isfinite(d).all()),
        lag0=int(round(float(a.get('start_lag', 9999)) * 1000)),
        npts=len(d), nz=nz)


def key_of(st):
    try:
        n, s, c = (st[k].split('-') for k in ('network', 'station', 'channel'))
        return dict(
            a=dict(n=code(n[0]), s=code(s[0]), c=code(c[0])),
            b=dict(n=code(n[1]), s=code(s[1]), c=code(c[1])),
            st=rel(st.corr_start), et=rel(st.corr_end))
    except Exception:
        return dict(a=dict(n=[], s=[], c=[]), b=dict(n=[], s=[], c=[]),
                    st=0, et=0)


def clean_logging():
    for name in list(logging.root.manager.loggerDict):
        if name.startswith('seismic.') or name == 'py.warnings':
            lg = logging.getLogger(name)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                try:
                    h.close()
                except Exception:
                    pass


def selected(ch, net, sta, comp):
    import fnmatch
    m = fnmatch.fnmatchcase
    if isinstance(net, str) and isinstance(sta, str):
        ns = [(net, sta)]
    elif isinstance(net, list) and isinstance(sta, list):
        ns = list(zip(net, sta))
    elif isinstance(net, list):
        ns = [(x, sta) for x in net]
    else:
        ns = [(net, x) for x in sta]
    return any(m(ch.n, n) and m(ch.s, s) for n, s in ns) and \
        m(ch.c[-1], comp)
