"""
Correlation files of small projects, written through the database, and the
real Monitor on them (any number of ranks).
"""
import copy
import glob
import hashlib
import os
import sys
import warnings

import numpy as np
from obspy import UTCDateTime
from obspy.core import Stats

import seismic.monitor.monitor as sm
from seismic.correlate.stream import CorrTrace, CorrStream
from seismic.db.corr_hdf5 import CorrelationDataBase

import fakempi
from corrdrive import clean_logging, ints
from dbdrive import base_co
from vf import code, quiet

BASE = UTCDateTime(2015, 1, 1)
SR = 10.
LTS = 15


def coda(rng, n=int(2 * LTS * SR) + 1):
    """A symmetric-ish reference wave."""
    r = np.random.RandomState(rng.randrange(1 << 30))
    x = r.randn(n)
    k = np.hanning(7)
    return np.convolve(x, k / k.sum(), 'same')


def corr(rng, a, b, t, dur, data, sr=SR, lts=LTS):
    hs = []
    for (n, s, c) in (a, b):
        h = Stats()
        h.network, h.station, h.channel = n, s, c
        h.sampling_rate = sr
        h.npts = int(dur * sr)
        h.starttime = t
        h['stla'], h['stlo'] = 10. + len(s), 20. + len(n)
        h['stel'] = 500.*len(s)
        hs.append(h)
    with quiet():
        return CorrTrace(
            np.asarray(data, dtype=np.float32), header1=hs[0], header2=hs[1],
            start_lag=-float(lts), end_lag=float(lts))


class MonProject:
    def __init__(self, root, separate=False, sr=SR, lts=LTS, **dv):
        self.root, self.sep = root, separate
        self.sr, self.lts = sr, lts
        self.corr = os.path.join(root, 'corr')
        os.makedirs(self.corr, exist_ok=True)
        self.dv = dict(
            subdir='vel_change', plot_vel_change=False,
            start_date=str(BASE), end_date=str(BASE + 4 * 3600),
            win_len=3600, date_inc=3600, freq_min=.5, freq_max=3,
            tw_start=2, tw_len=8, sides='both', compute_tt=False,
            rayleigh_wave_velocity=1, stretch_range=.02, stretch_steps=11,
            return_sim_mat=True,
            dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50},
            preprocessing=[], postprocessing=[])
        self.dv.update(dv)
        self.wfc = dict(
            subdir='wfc', start_date=str(BASE), end_date=str(BASE + 4*3600),
            win_len=3600, date_inc=3600, freq_min=[.5, 1], freq_max=[1, 3],
            tw_start=[0, 4], tw_len=5,
            dt_ref={'win_inc': 0, 'method': 'mean', 'percentile': 50},
            preprocessing=[], save_comps=False)
        self.net = dict(network='*', station='*', component='*')

    def add(self, rng, a, b, times, tag='subdivision', ref=None):
        """Correlations of channels a and b (canonical order)."""
        if not a <= b:
            a, b = b, a
        ref = coda(rng) if ref is None else ref
        r = np.random.RandomState(rng.randrange(1 << 30))
        return self.add_rows(rng, a, b, times, [
            ref + .1 * r.randn(len(ref)) for _ in times], tag)

    def add_rows(self, rng, a, b, times, rows, tag='subdivision'):
        st = CorrStream([
            corr(rng, a, b, BASE + t, 1800, x, self.sr, self.lts)
            for t, x in zip(times, rows)])
        name = '%s-%s.%s-%s' % (a[0], b[0], a[1], b[1])
        if self.sep:
            name += '.%s-%s' % (a[2], b[2])
        co = base_co()
        co['corr_args']['lengthToSave'] = self.lts
        co['sampling_rate'] = self.sr
        f = os.path.join(self.corr, name + '.h5')
        with quiet():
            with CorrelationDataBase(f, corr_options=co) as db:
                db.add_correlation(st, tag)
        return f

    def options(self):
        return copy.deepcopy(dict(
            proj_dir=self.root, log_subdir='log', log_level='CRITICAL',
            save_comps_separately=self.sep, fig_subdir='fig', net=self.net,
            co=dict(subdir='corr', preProcessing=[]), dv=self.dv,
            wfc=self.wfc))

    def run(self, what, ranks=1, rec=None):
        """what(monitor) on each rank; returns the error or None"""
        def body(rank):
            m = sm.Monitor(self.options())
            what(m)
            return True
        mpi0 = sm.MPI
        show0 = warnings.showwarning
        log0 = sys.stderr
        with quiet():
            try:
                sm.MPI = fakempi.MPI
                with fakempi.accesses(self.root, rec):
                    res, err = fakempi.run(ranks, body)
            finally:
                sm.MPI = mpi0
                import logging
                logging.captureWarnings(False)
                warnings.showwarning = show0
                clean_logging()
        return err


def results(path):
    """Content of all result files of a folder as scaled integers."""
    out = []
    for f in sorted(glob.glob(os.path.join(path, '**', '*.npz'),
                              recursive=True)):
        with np.load(f, allow_pickle=True) as z:
            for k in sorted(z.files):
                v = z[k]
                name = '%s:%s:%s' % (
                    os.path.relpath(f, path), k, v.shape)
                if v.dtype.kind in 'fiub' and v.size:
                    out.append(dict(k=name, v=ints(v)))
                else:
                    out.append(dict(
                        k=name + ':' + hashlib.sha1(
                            repr(v.tolist()).encode()).hexdigest()[:12],
                        v=[]))
    return out
