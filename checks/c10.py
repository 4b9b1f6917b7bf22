"""
C10: resampling in time and reference traces. Bulk.tla says which
correlations are in a bin (BulkMC: disjoint bins share nothing and lose
nothing); random matrices are resampled to random bins, and reference traces
extracted, and every result is validated.
"""


from bulkdrive import Rec


def matrices(ctx, rng, ev):
    for _ in range(6):
        r = Rec(rng, ev, ctx.dir(), slots=3, regular=rng.random() < .4)
        r.new()
        for _ in range(10):
            if len(r.slots) < 3 and rng.random() < .5:
                rng.choice([r.copy, r.index])(rng.randrange(len(r.slots)))
                continue
            i = rng.randrange(len(r.slots))
            if not r.rows(i):
                r.new()
                continue
            k = rng.random()
            if k < .35:
                r.refs(i)
            elif k < .8:
                # on a copy, so that the original can be used again
                r.copy(i)
                r.resample(r.ev[-1]['dst'] - 1)
            else:
                r.resample(i)


def describe(b):
    return b['clause']


def run(ctx):
    ctx.model('BulkMC', ctx.pick('Bulk_mc.cfg', 'Bulk_big.cfg'))
    ev = ctx.pmap(matrices, ctx.pick(48, 1000))
    ctx.cov['operations'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('BulkTrace', ev, 'PairsTrace.cfg', describe, chunk=500)
