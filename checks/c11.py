"""
C11: correlation matrices under any sequence of operations. Bulk.tla holds
the operations, BulkMC checks all short sequences on small matrices; random
histories of several real matrices are validated, with every matrix observed
after every call.
"""
from bulkdrive import Rec

OPS = ['trim', 'mirror', 'slice', 'slice', 'select', 'index', 'index', 'row',
       'split', 'copy', 'save', 'resample', 'refs', 'other']
BIG = ['trim', 'index', 'other', 'other', 'rate', 'copy', 'mirror']


def history(ctx, rng, ev):
    r = Rec(rng, ev, ctx.dir())
    for _ in range(40):
        r.step(OPS)
    r = Rec(rng, ev, ctx.dir(), slots=2, big=True)
    for _ in range(8):
        r.step(BIG)


def describe(b):
    d = b.get('detail') or {}
    e = b['event']
    return b['clause'] + (':' + e['op'] if e['ev'] == 'Other' else '')


def run(ctx):
    ctx.model('BulkMC', ctx.pick('Bulk_mc.cfg', 'Bulk_big.cfg'))
    ev = ctx.pmap(history, ctx.pick(48, 1000))
    ctx.cov['operations'] = {
        k: sum(e['ev'] == k for e in ev) for k in sorted({
            e['ev'] for e in ev})}
    ctx.validate('BulkTrace', ev, 'PairsTrace.cfg', describe, chunk=500)
    ctx.assumptions = [
        'slices and splits are views on the samples of their matrix, so '
        'operations that change samples in place are done on copies']
