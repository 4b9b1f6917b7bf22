"""
C16: what is saved is what is read. Saved.tla says how an object is kept as
named arrays (SavedMC: any history of saving and loading is faithful). Real
velocity changes, correlation matrices and coherences are made by the code
itself, saved, overwritten, damaged and loaded in random histories.
"""
import hashlib
import os
import shutil
import tempfile

import numpy as np
from obspy import UTCDateTime

import seismic.monitor.monitor as sm
from seismic.correlate.stats import CorrStats
from seismic.correlate.stream import (
    CorrStream, CorrTrace, read_corr_bulk)
from seismic.monitor.dv import DV, read_dv
from seismic.monitor.wfc import WFC, read_wfc

import dbdrive as dd
import dvdrive
from vf import code, quiet


def canon(v):
    """The meaning of a value, whatever type it is kept as"""
    if v is None:
        return 'None'
    if isinstance(v, UTCDateTime):
        return 't:%d' % round(v.ns / 1000)
    if isinstance(v, (list, tuple)) or (
            isinstance(v, np.ndarray) and v.ndim):
        if isinstance(v, np.ndarray):
            v = v.tolist()
        s = '[%s]' % ','.join(canon(x) for x in v)
        if len(s) > 400:
            s = '#%d:%s' % (len(v), hashlib.sha1(s.encode()).hexdigest()[:12])
        return s
    if isinstance(v, np.ndarray):
        v = v.item()
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if isinstance(v, (str, np.str_)):
        return 's:' + str(v)
    if isinstance(v, dict):
        return '{%s}' % ','.join(
            '%s=%s' % (k, canon(v[k])) for k in sorted(v))
    return 'f:%r' % float(v)


def spec(o):
    hdr = {k: canon(v) for k, v in o.stats.items()}
    # both are the same field
    if isinstance(o, DV):
        att = {k: canon(getattr(o, k)) for k in (
            'corr', 'value', 'sim_mat', 'second_axis', 'method',
            'value_type', 'avail', 'stretches', 'corrs', 'n_stat')}
        for k in ('method', 'value_type'):
            # may be an array holding one name
            att[k] = canon(np.asarray(getattr(o, k)).ravel().tolist()[0])
        att.update({'p_' + k: canon(v)
                    for k, v in (o.dv_processing or {}).items()})
        kind = 'DV'
    elif isinstance(o, WFC):
        att = {k: canon(v) for k, v in o.items()}
        att.update({k: canon(v) for k, v in o.av.items()})
        att.update({'p_' + k: canon(v) for k, v in o.wfc_processing.items()})
        att['mean'] = canon(o.mean)
        kind = 'WFC'
    else:
        att, kind = dict(data=canon(o.data)), 'CB'
    return dict(kind=kind, hdr=hdr, att=att)


def bulk(rng, n=None, ncol=None, net='A-B'):
    """a correlation matrix as the code makes it"""
    n = n or rng.choice([1, 1, 2, 3, 6])
    half = ncol or rng.choice([4, 8, 12])
    sr = rng.choice([1., 4., 10., 3.])
    locs = rng.sample(['00-00', '', '-10', '00-10'], rng.choice([1, 1, 2]))
    chas = rng.sample(['HHZ-HHZ', 'HHZ-HHE', 'BHZ-HHZ'], rng.choice([1, 1, 2]))
    st = CorrStream()
    coords, proc = rng.random() < .8, rng.random() < .5
    frac = rng.choice([0, 0, .5, .123456, .9999])
    t = 1000 * rng.randint(0, 9) + frac
    for k in range(n):
        h = CorrStats(dict(
            network=net, station=rng.choice(['S1-S2']),
            channel=rng.choice(chas), location=rng.choice(locs),
            corr_start=BASE + t, corr_end=BASE + t + rng.choice([500, 999.5]),
            sampling_rate=sr, start_lag=-half / sr))
        t += rng.choice([500, 1000, 3600.25])
        if coords:
            h['stla'], h['evla'] = -1.5, 2.25
            h['stlo'], h['evlo'] = 179.25, -0.125
            h['stel'], h['evel'] = 0., -100.5
            h['dist'], h['az'], h['baz'] = 12.345678901, 1e-12, 359.99
        if proc:
            h['processing'] = ['a', 'bcd: 1, 2']
        h['_format'] = 'hdf5'
        v = np.array([rng.uniform(-1, 1) for _ in range(2 * half + 1)])
        if rng.random() < .15:
            v[:] = np.nan
        st.append(CorrTrace(v, _header=h))
    with quiet():
        cb = st.create_corr_bulk(
            channel=None, inplace=rng.random() < .5) if len(chas) > 1 \
            else st.create_corr_bulk()
    return cb


BASE = dd.BASE


def operate(rng, cb):
    """some processing, that is noted in the header"""
    with quiet(), np.errstate(all='ignore'):
        for _ in range(rng.randint(0, 3)):
            op = rng.choice(['normalize', 'trim', 'mirror', 'resample',
                             'copy', 'envelope', 'taper', 'extract'])
            s = cb.stats
            if op == 'trim' and s.npts > 6:
                cb.trim(s.start_lag + s.delta, s.end_lag - s.delta)
            elif op == 'resample':
                a = min(s.corr_start)
                k = rng.choice([1, 2, 4])
                cb.resample([a + 1500 * i for i in range(k)],
                            [a + 1500 * (i + 1) for i in range(k)])
            elif op == 'normalize':
                cb.normalize()
            elif op == 'mirror' and abs(
                    s.start_lag + s.end_lag) < 1e-6:
                cb.mirror()
            elif op == 'envelope':
                cb.data = np.nan_to_num(cb.data)
                cb.envelope()
            elif op == 'taper':
                cb.taper(s.delta)
            elif op == 'copy':
                cb = cb.copy()
            else:
                cb.extract_trace()
    return cb


def velocity(rng):
    x = rng.random()
    if x < .35:
        a = dvdrive.make(rng, rng.choice([1, 1, 2, 4]), rng.randint(1, 5), 0)
        if rng.random() < .3:
            a.dv_processing = {}
        elif rng.random() < .4:
            a.dv_processing['tw_len'] = None
        return a
    if x < .6:
        ds = [dvdrive.make(rng, rng.choice([1, 3]), 3, k, axis=[-1, 0, 1])
              for k in range(rng.randint(1, 4))]
        with quiet(), np.errstate(all='ignore'):
            if rng.random() < .5:
                return sm.average_components(ds, rng.random() < .6)
            return sm.average_dvs_by_coords(
                ds, (0, 4), (0, 4), return_std=rng.random() < .6)
    cb = bulk(rng, ncol=12)
    sr = cb.stats.sampling_rate
    with quiet(), np.errstate(all='ignore'):
        cb.data = np.nan_to_num(cb.data, nan=.5)
        tw = [np.arange(2, 10)]
        if x < .85:
            d = cb.stretch(
                tw=tw, stretch_steps=5, sides=rng.choice(['both', 'right']),
                return_sim_mat=rng.random() < .7,
                processing=dict(freq_min=.1, freq_max=.5, tw_start=2 / sr,
                                tw_len=rng.choice([8 / sr, None]),
                                sides='both', aligned=rng.random() < .3))
        else:
            d = cb.find_clock_shift(
                tw=tw, shift_range=1, shift_steps=5,
                return_sim_mat=rng.random() < .7)
    return d


def coherence(rng):
    cb = bulk(rng, ncol=12)
    with quiet(), np.errstate(all='ignore'):
        k = rng.choice([0, 1])
        refs = cb.extract_trace() if not k else np.array(
            [cb.extract_trace() + i for i in range(rng.choice([2, 11]))])
        w = cb.wfc(refs, [np.arange(2, 10)], 'both', rng.choice([2, .5]),
                   8, .1, .5)
        if rng.random() < .7:
            w.compute_average()
        if rng.random() < .3:
            w = sm.average_components_wfc([w, w])
            if rng.random() < .5:
                w.compute_average()
    return w


MAKE = dict(DV=velocity, WFC=coherence,
            CB=lambda rng: operate(rng, bulk(rng)))
READ = dict(DV=read_dv, WFC=read_wfc, CB=read_corr_bulk)
NAMES = ['a', 'a1', 'ab', 'b', 'DV-A-B.S1-S2.HHZ-HHZ', 'x.y']


def histories(ctx, rng, ev):
    kind = rng.choice(['DV', 'DV', 'CB', 'WFC'])
    root = tempfile.mkdtemp(dir=ctx.tmp)
    cwd = os.getcwd()
    ev.append(dict(ev='Reset'))
    mem, files = [], set()

    def make(o):
        mem.append(o)
        ev.append(dict(ev='Make', slot=len(mem), o=spec(o)))
    try:
        os.chdir(root)
        make(MAKE[kind](rng))
        for _ in range(14):
            x = rng.random()
            if x < .2:
                make(MAKE[kind](rng))
            elif x < .55:
                i = rng.randrange(len(mem))
                n = rng.choice(NAMES)
                ext = rng.random() < .5
                ok, err = True, ''
                with quiet():
                    try:
                        mem[i].save(n + '.npz' if ext or '.' in n else n)
                    except Exception as e:
                        ok, err = False, repr(e)
                files.add(n + '.npz')
                ev.append(dict(ev='Save', slot=i + 1, path=code(n + '.npz'),
                               ok=ok, err=err, o=spec(mem[i])))
            elif x < .6 and files and kind == 'DV':
                n = rng.choice(sorted(files))
                dvdrive.damage(rng, n)
                ev.append(dict(ev='Damage', path=code(n)))
            else:
                pat = rng.choice(
                    [rng.choice(NAMES) + '.npz'] * 3 + (
                        ['*.npz', 'a*.npz', '*'] if kind != 'CB' else [])
                    + (['?.npz', 'a?.npz'] if kind != 'CB' else []))
                ok, err, out = True, '', []
                with quiet():
                    try:
                        out = READ[kind](pat)
                    except Exception as e:
                        ok, err = False, repr(e)
                single = not isinstance(out, list)
                L = [out] if single else out
                ev.append(dict(ev='Load', kind=kind, pat=code(pat), ok=ok,
                               err=err, single=single,
                               out=[spec(o) for o in L]))
                if L and rng.random() < .6:
                    # go on with what was read
                    make(rng.choice(L))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def run(ctx):
    ctx.model('SavedMC', 'Saved_mc.cfg')
    ev = ctx.pmap(histories, ctx.pick(160, 4000))
    ctx.cov['calls'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('SavedTrace', ev, 'PairsTrace.cfg', chunk=1500)
    ctx.assumptions = [
        'a list, a tuple and an array of equal values are equal']
