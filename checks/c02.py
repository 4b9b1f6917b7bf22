"""
C02: a database file never mixes different processing parameters.
Params.tla (what is relevant) + CorrDB.tla (the opening); every leaf of the
parameters is varied on the real code, in random histories of openings.
"""
import copy
import os

import dbdrive as dd
from c01 import describe, model_co, replay  # noqa: F401

M = 'seismic.correlate.preprocessing_stream.'
MASK = M + 'stream_mask_at_utc'


def full_co():
    co = dd.base_co()
    co.update({
        'combinations': [], 'starttime': None, 'xcombinations': None,
        'filter_by_distance': None, 'starts': 7,
        'preProcessing': [
            {'function': M + 'cos_taper_st',
             'args': {'taper_len': 100, 'lossless': True}},
            {'function': M + 'detrend_st', 'args': {'type': 'linear'}},
            {'function': M + 'stream_filter', 'args': {
                'ftype': 'bandpass', 'filter_option': {
                    'freqmin': 0.01, 'freqmax': 12.49}}}]})
    co['subdivision'].update({'recombine_subdivision': True})
    co['corr_args'].update({
        'combinations': [], 'direct_output': {'file': 'x', 'n': 1},
        'FDpreProcessing': [
            {'function': 'seismic.correlate.preprocessing_fd.'
             'spectralWhitening', 'args': {'joint_norm': False}}]})
    return co


def leaves(d, path=()):
    items = d.items() if isinstance(d, dict) else enumerate(d)
    for k, v in items:
        if isinstance(v, (dict, list)) and len(v):
            yield from leaves(v, path + (k,))
            if isinstance(v, list):
                yield path + (k,)
        else:
            yield path + (k,)


def at(d, path):
    for k in path:
        d = d[k]
    return d


def change(rng, v):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rng.choice([1, -1, 100])
    if isinstance(v, float):
        return v * rng.choice([2, .5, 1.0000001])
    if isinstance(v, str):
        return v + rng.choice(['x', '0']) if '.' not in v else v[:-1]
    if isinstance(v, list):
        k = rng.choice(['append', 'pop', 'reverse'])
        w = copy.deepcopy(v)
        if k == 'append' or len(w) < 2:
            w.append(copy.deepcopy(w[-1]) if w and isinstance(w[0], dict)
                     else 'new')
        elif k == 'pop':
            w.pop(rng.randrange(len(w)))
        else:
            w.reverse()
            if w == v:
                w.pop()
        return w
    return 'other'


def mutate(rng, co, path):
    co = copy.deepcopy(co)
    par = at(co, path[:-1])
    if rng.random() < .25 and isinstance(par, dict) and len(path) < 4 and \
            'args' not in path and path[-1] not in (
            'function', 'preProcessing', 'corr_args', 'subdivision'):
        del par[path[-1]]
    else:
        par[path[-1]] = change(rng, par[path[-1]])
    return co


def masks(rng, co):
    """Insert masking steps anywhere, also several in a row."""
    co = copy.deepcopy(co)
    for _ in range(rng.randint(1, 4)):
        co['preProcessing'].insert(
            rng.randint(0, len(co['preProcessing'])),
            {'function': MASK, 'args': {
                'starts': ['2015-01-0%d' % rng.randint(1, 9)],
                'masklen': rng.choice([5, 10])}})
    return co


def history(ctx, rng, ev, base, variants):
    """Openings of one file with the given variants of base, in turn."""
    tape = dd.Tape()
    db = dd.DB(os.path.join(ctx.dir(), 'db.h5'), tape, ev)
    a, b = ('XX', 'A', 'HHZ'), ('XX', 'B', 'HHZ')
    first = rng.choice(['a', 'a', 'force'])
    db.open('a', base, first == 'force')
    db.add('subdivision', [(a, b, None, tape.make(a, b, dd.BASE))])
    db.close()
    for i, co in enumerate(variants):
        ok = db.open(rng.choice(['a', 'a', 'r+', 'r']), co,
                     rng.random() < .15)
        if ok:
            if db.rw:
                db.add('subdivision', [
                    (a, b, None, tape.make(a, b, dd.BASE + 3600 * i))])
            db.close()
    db.open('r')
    db.close()


def key(b):
    """Identifies the parameters whose difference was misjudged."""
    e = b['event']
    k = describe(b)
    if e['ev'] == 'Open' and 'co' in e:
        first = [x for x in b['trace'] if x['ev'] == 'Open'][0]['co']
        d = sorted({p[0] for p in e['co']['leaves'] + first['leaves']
                    if (p in e['co']['leaves']) != (p in first['leaves'])})
        if e['co']['pre'] != first['pre']:
            d.append('preProcessing')
        k += ' differs in ' + ','.join(d)
    return k


def run(ctx):
    rng = ctx.rng
    ctx.model('CorrDBMC', 'CorrDB_open.cfg', workers=8)
    logs = ctx.gen('CorrDBMC', 'CorrDBGenOpen.cfg', workers=1, extra=[
        '-simulate', 'num=%d' % ctx.pick(40, 400), '-depth', '13',
        '-seed', str(ctx.seed)])
    ev = []
    for log in logs:
        replay(ctx, log, ev)
    co = full_co()
    paths = list(leaves(co))
    n = 0
    for rep in range(ctx.pick(2, 12)):
        rng.shuffle(paths)
        for p in paths:
            base = masks(rng, co) if rng.random() < .4 else co
            first, rest = (base, [mutate(rng, co, p)])
            rest.append(masks(rng, rest[0]))
            rest.append(masks(rng, co))
            q = rng.choice(paths)
            rest.append(mutate(rng, co, q))
            rng.shuffle(rest)
            # sometimes the changed set is the one of the first writer
            if rng.random() < .4:
                first, rest[0] = rest[0], first
            history(ctx, rng, ev, first, rest + [None])
            n += 1
    ctx.validate('CorrDBTrace', ev, 'CorrDBTrace.cfg', key)
    ctx.cov['parameter_leaves_varied'] = len(paths)
    ctx.cov['behaviours_generated_by_tlc'] = len(logs)
    ctx.assumptions = [
        'parameter values are those a YAML file can hold',
        'which parameters are bookkeeping is fixed in spec/Params.tla']
