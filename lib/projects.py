"""Random correlation projects that keep to the assumptions of spec/Corr."""
import corrdrive as cd

IDS = [
    # codes that are prefixes of each other, digits, same codes in other
    # networks, orders that differ between fields
    ('A', 'S1'), ('A', 'S10'), ('A', 'S2'), ('B', 'S1'), ('B', 'A'),
    ('AB', 'S'), ('Z', '1'), ('A', 'S'), ('B', 'Z9'), ('C', 'S1')]
CHAS = ['HHZ', 'HHN', 'HHE', 'BHZ', 'HH1', 'EHZ']


def edges(cfg, end):
    """Borders of all read and correlation windows."""
    e = set()
    r = cfg['start']
    while r < end:
        e |= {r, r + cfg['len']}
        j = 0
        while j < cfg['len']:
            e |= {r + j, r + j + cfg['cl']}
            j += cfg['ci']
        r += cfg['inc']
    return e


SCHED = [
    dict(inc=800, len=800, ci=200, cl=200),
    dict(inc=800, len=800, ci=200, cl=400),
    dict(inc=600, len=600, ci=300, cl=300),
    dict(inc=600, len=600, ci=600, cl=600),
    dict(inc=800, len=800, ci=400, cl=200),
    dict(inc=800, len=800, ci=300, cl=400),
    dict(inc=900, len=600, ci=200, cl=200),
    dict(inc=700, len=700, ci=300, cl=300),
    dict(inc=600, len=1200, ci=600, cl=300),
]


def config(rng, **kw):
    c = dict(rng.choice(SCHED), start=100 * rng.randint(0, 12),
             S=rng.choice([20, 30]), method='betweenStations', xcombis=None,
             recomb=rng.random() < .7, dele=False)
    if c['recomb'] and rng.random() < .15:
        c['dele'] = True
    c.update(kw)
    return c


def channel(rng, nsc, cfg, end, holes=.5):
    """A channel with data for the schedule up to `end`."""
    ch = cd.Channel(*nsc)
    lo = cfg['start'] - 100 * rng.randint(0, 3)
    hi = end + cfg['len'] + 100 * rng.randint(0, 3)
    if rng.random() < holes:
        segs, t = [], lo
        if rng.random() < .5:
            # late start
            t += 100 * rng.randint(1, 8)
        while t < hi:
            n = 100 * rng.randint(1, 10)
            if rng.random() < .15:
                # a short snippet
                segs.append((t + 15, t + 15 + rng.randint(40, 70)))
                t += 200
                continue
            segs.append((t, t + n - 1))
            t += n + 100 * rng.choice([1, 1, 2, 3, 8])
            if rng.random() < .15:
                # early end
                break
        ch.segs = segs
    else:
        ch.segs = [(lo, hi - 1)]
    return ch


def fill(rng, ch, cfg, end, amp=5):
    """Put wavelets where they survive tapering."""
    e = edges(cfg, end)
    for a, b in ch.segs:
        short = b - a < 85
        t = a + rng.randint(25, 60)
        while t < b - 25 or (short and t < b - 3):
            lo, hi = a, b
            if short or all(abs(t - x) > 25 for x in e | {lo, hi}):
                ch.pulse(t, rng.choice([-1, 1]) * rng.randint(1, amp))
                t += rng.randint(10, 90)
            else:
                t += rng.randint(3, 20)
    return ch


def scaled(ch, f):
    c = cd.Channel(ch.n, ch.s, ch.c, ch.loc)
    c.segs = list(ch.segs)
    c.x = {t: v * f for t, v in ch.x.items()}
    return c


def network(rng, cfg, end, nsta=3, ncha=1, holes=.5):
    sta = rng.sample(IDS, nsta)
    out = []
    for s in sta:
        for c in rng.sample(CHAS, ncha if isinstance(ncha, int)
                            else rng.randint(*ncha)):
            out.append(fill(rng, channel(
                rng, s + (c,), cfg, end, holes), cfg, end))
    return out
