"""
C01: the correlation database is an exact map over any history.
spec/CorrDB.tla: model checked, behaviours generated by TLC replayed on the
real database, random histories recorded; all traces validated by TLC.
"""
import os

from vf import uncode
import dbdrive as dd

MODELCFG = 'CorrDB_mc.cfg'


def gid(i):
    return tuple(uncode(i[k]) for k in 'nsc')


def model_co(c):
    """The real parameters for those of the model (CorrDBMC)."""
    co = dd.base_co()
    leaves = dict(c['leaves'])
    co['sampling_rate'] = int(leaves['sampling_rate'])
    co['subdir'] = leaves['subdir']
    co['preProcessing'] = [
        {'function': f, 'args': {'starts': ['2015-01-01'], 'a': a}}
        for f, a in c['pre']]
    return co


def ctime(t):
    """'01' -> day 0, slot 1"""
    t = uncode(t)
    return dd.BASE + int(t[0]) * 86400 + int(t[1]) * 3600


def replay(ctx, log, ev):
    """A behaviour of the specification, on the real code."""
    tape = dd.Tape()
    db = dd.DB(os.path.join(ctx.dir(), 'A-A.B-B.h5'), tape, ev)
    for e in log:
        if e['op'] == 'open':
            db.open(e['mode'], model_co(e['co']) if e['hasco'] else None,
                    e['force'])
        elif e['op'] == 'close':
            db.close()
        elif e['op'] == 'add':
            db.add(uncode(e['tag']), [
                (gid(r['a']), gid(r['b']), None,
                 tape.make(gid(r['a']), gid(r['b']), ctime(r['st'])))
                for r in e['batch']])
        elif e['op'] == 'remove':
            p = uncode(e['pat'])
            if p == '*':
                t = '*'
            elif p.endswith('*'):
                t = dd.stamp(dd.BASE + int(p[0]) * 86400)[:7] + '*'
            else:
                t = ctime(e['pat'])
            db.remove(uncode(e['tag']), gid(e['a']), gid(e['b']), t)
    if db.h is None:
        db.open('r')
    read_back(db, ['s', 'st'])
    db.close()


def read_back(db, tags):
    """Every stored correlation by its own names, in both orders."""
    for p, _ in dd.walk(db.path):
        if len(p) != 6:
            continue
        n, s, c = (tuple(x.split('-')) for x in p[1:4])
        t0, t1 = (dd.UTCDateTime(x) for x in p[4:])
        db.get(p[0], n, s, c, t0, t1)
        db.get(p[0], n[::-1], s[::-1], c[::-1], t0, t1)
        db.get(p[0], n, s, c)


def pool(rng):
    """Channel ids with many shared prefixes."""
    nets = rng.choice([['A'], ['A', 'AB'], ['XX', 'YY'], ['A', 'B1', 'B']])
    stas = rng.choice([['S1', 'S10'], ['S', 'SZ', 'SZ1'], ['STA1', 'STB'],
                       ['9', '90', 'A'], ['AB', 'ABHHZ', 'ABC']])
    chas = rng.choice([['HHZ'], ['HHZ', 'HHE'], ['Z', 'HZ', '0Z'],
                       ['EHE', 'EHN', 'EHZ']])
    ids = [(n, s, c) for n in nets for s in stas for c in chas]
    rng.shuffle(ids)
    return ids[:rng.randint(2, 6)]


def history(ctx, rng, ev, steps):
    tape = dd.Tape()
    db = dd.DB(os.path.join(ctx.dir(), 'db.h5'), tape, ev)
    ids = pool(rng)
    tags = ['subdivision', 'stack_86398', 'sub'][:rng.randint(1, 3)]
    times = [dd.BASE + d * 86400 + h * 3600 + us / 1e4
             for d in (0, 1, 10, 99) for h in (0, 1, 12) for us in (0, 25)]
    rng.shuffle(times)
    times = times[:rng.randint(2, 7)]
    durs = [3599.75, 3600, 7199.75]
    co = dd.base_co()
    db.open('a', co, rng.random() < .2)
    for _ in range(steps):
        r = rng.random()
        a, b = rng.choice(ids), rng.choice(ids)
        tag = rng.choice(tags)
        if db.h is None:
            k = rng.random()
            if k < .5:
                db.open('a', co)
            elif k < .65:
                db.open('r+', co)
            elif k < .8:
                db.open('r', None)
            else:
                db.open('a', None)
        elif r < .55:
            items = []
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                if rng.random() < .5:
                    a, b = rng.choice(ids), rng.choice(ids)
                st = rng.choice(times)
                items.append((a, b, st, tape.make(
                    a, b, st, rng.choice(durs),
                    loc=rng.choice([('00', '10'), ('', '')]),
                    npts=rng.choice([3, 9, 9, 40]))))
            db.add(tag, items)
        elif r < .75:
            t = rng.choice(times)
            pat = rng.choice([
                t, t, '*', dd.stamp(t)[:7] + '*', dd.stamp(t)[:4] + '*',
                '*T' + dd.stamp(t)[8:10] + '*', dd.stamp(t)[:6] + '*',
                dd.stamp(t)[:4] + '?' + dd.stamp(t)[5:]])
            db.remove(tag, a, b, pat)
        elif r < .88:
            t = rng.choice(times)
            n, s, c = zip(a, b)
            db.get(tag, n, s, c, *rng.choice(
                [(None, None), (t, t + 3599.75), (t, None)]))
        else:
            db.close()
    if db.h is None:
        db.open('r', None)
    read_back(db, tags)
    db.close()


def describe(b):
    return 'CorrDB:' + b['clause']


def run(ctx):
    ctx.model('CorrDBMC', MODELCFG, workers=8)
    n = ctx.pick(60, 400)
    logs = ctx.gen('CorrDBMC', 'CorrDBGen.cfg', workers=1, extra=[
        '-simulate', 'num=%d' % n, '-depth', '15', '-seed', str(ctx.seed)])
    ev = ctx.pmap(
        [(lambda c, r, e, log=log: replay(c, log, e), 1) for log in logs]
        + [(lambda c, r, e: history(c, r, e, r.randint(5, 40)),
            ctx.pick(80, 1200))], None)
    ctx.validate('CorrDBTrace', ev, 'CorrDBTrace.cfg', describe,
                 chunk=ctx.pick(800, 4000))
    ctx.cov['behaviours_generated_by_tlc'] = len(logs)
    ctx.assumptions = [
        'codes consist of letters and digits; times are multiples of 0.1 ms',
        'HDF5 itself stores what it is told to store']
