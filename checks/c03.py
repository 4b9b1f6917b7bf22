"""
C03: listings and wildcard queries return exactly what matches. Random
database contents over confusable codes; every kind of query on each; the
answers are decided by the operators Query, Channels, Starts of CorrDB.tla.
"""
import os

import dbdrive as dd
from c01 import describe, history as c01_history


def pool(rng):
    nets = rng.choice([['A'], ['A', 'AB'], ['XX', 'YY'], ['A', 'B1', 'B']])
    stas = rng.choice([['S1', 'S10'], ['S', 'SZ', 'SZ1'], ['STA1', 'STB'],
                       ['9', '90', 'A'], ['AB', 'ABHHZ', 'ABC']])
    chas = rng.choice([['HHZ', 'HHE', 'HHZZ'], ['HHZ', 'HHE', 'BHE'],
                       ['Z', 'HZ', '0Z'], ['EHE', 'EHN', 'EHZ']])
    ids = [(n, s, c) for n in nets for s in stas for c in chas]
    rng.shuffle(ids)
    return ids[:rng.randint(2, 7)]


def blur(rng, x):
    """A pattern that matches the code x."""
    k = rng.random()
    if k < .35:
        return x
    i = rng.randrange(len(x))
    if k < .6:
        return x[:i] + '?' + x[i + 1:]
    if k < .8:
        return x[:i] + '*'
    return '*' + x[i:]


def field(rng, x, y, p_all, p_blur):
    k = rng.random()
    if k < p_all:
        return '*'
    if k < p_all + p_blur:
        return (blur(rng, x), blur(rng, y))
    return (x, y)


def one(ctx, rng, ev, nq):
    tape = dd.Tape()
    db = dd.DB(os.path.join(ctx.dir(), 'db.h5'), tape, ev)
    ids = pool(rng)
    tags = rng.choice([['subdivision', 'stack_86398', 'stack_8639'],
                       ['sub', 'subdivision'], ['recombined']])
    # windows may share their start, their end, or start at the end of others
    times = [dd.BASE + d * 86400 + h * 3600
             for d in (0, 1, 10, 99) for h in (0, 1, 2, 12)]
    rng.shuffle(times)
    times = times[:rng.randint(2, 5)]
    durs = [3600, 7200, 3599.75]
    db.open('a', dd.base_co())
    for tag in tags:
        items = []
        for _ in range(rng.randint(0, 12)):
            a, b, st = rng.choice(ids), rng.choice(ids), rng.choice(times)
            items.append((a, b, st, tape.make(
                a, b, st, rng.choice(durs), npts=rng.choice([3, 9]))))
        if items:
            db.add(tag, items)
    if rng.random() < .3:
        db.remove(rng.choice(tags), rng.choice(ids), rng.choice(ids),
                  rng.choice(['*', rng.choice(times)]))
    db.close()
    db.open('r')
    allt = times + [t + d for t in times for d in durs]
    for _ in range(nq):
        a, b = rng.choice(ids), rng.choice(ids)
        tag = rng.choice(tags) if rng.random() < .95 else 'nothing'
        k = rng.random()
        if k < .6:
            t0 = rng.choice(allt) if rng.random() < .3 else None
            t1 = rng.choice(allt) if rng.random() < .3 else None
            db.get(tag, field(rng, a[0], b[0], .3, .15),
                   field(rng, a[1], b[1], .3, .15),
                   field(rng, a[2], b[2], .4, .2), t0, t1)
        elif k < .7:
            if rng.random() < .8:
                a, b = sorted([a, b])
            db.channels(tag, (a[0], b[0]), (a[1], b[1]))
        else:
            if rng.random() < .8:
                a, b = sorted([a, b])
            pat = '%s-%s' % (a[2], b[2])
            r = rng.random()
            if r < .3:
                pat = '*'
            elif r < .5:
                pat = '%s-%s' % (blur(rng, a[2]), blur(rng, b[2]))
            elif r < .6:
                pat = [pat, '%s-%s' % (b[2], a[2])]
            db.starts(tag, (a[0], b[0]), (a[1], b[1]), pat)
    db.close()


def run(ctx):
    ctx.model('CorrDBMC', 'CorrDB_mc.cfg', workers=8)
    ev = ctx.pmap(
        [(lambda c, r, e: one(c, r, e, 25), ctx.pick(80, 1000)),
         (lambda c, r, e: c01_history(c, r, e, 20), ctx.pick(10, 150))], None)
    ctx.validate('CorrDBTrace', ev, 'CorrDBTrace.cfg', describe,
                 chunk=ctx.pick(400, 4000))
    ctx.cov['queries'] = sum(
        1 for e in ev if e['ev'] in ('Get', 'Channels', 'Starts'))
    ctx.cov['queries_with_answers'] = sum(
        1 for e in ev if e['ev'] in ('Get', 'Channels', 'Starts')
        and e['res'])
    ctx.assumptions = [
        'codes consist of letters and digits',
        'listings take the pair in its canonical order']
