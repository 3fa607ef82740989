"""P09: every timestep is simulated on its own."""
import numpy as np
from .. import cases, compare, core, sut, view
from ..scenario import rng_for, subset

ID = 'P09'
RULE = ('random and directed series re-simulated permuted, sliced, one '
        'timestep at a time, with duplicated steps and with night, missing '
        'or nonsensical steps inserted; non-trivial per distinct situation '
        'of a compared timestep and kind of variation')
COUNT = {'quick': 150, 'thorough': 3500}
REQUIRED = {'months': 1000, 'permuted': 100, 'single': 100, 'sliced': 100, 'hostile': 100,
            'duplicated': 100, 'fast': 100, 'step': 500, 'shade_front': 30,
            'shade_back': 20, 'skip-flag': 50, 'faoi': 5}
TOL = 1e-9


def corners(tier):
    out = [dict(c, seed=i, fast=(i % 3 == 0))
           for i, c in enumerate(cases.corner_cases())]
    # series of months
    for i, n in enumerate((1300, 2600) if tier == 'quick' else
                          (1300, 2600, 5200, 8760)):
        c = cases.random_case(rng_for(4242, i), 5, tier, long_every=97,
                              long_n=n, max_zenith=89.5, max_rows=2)
        out.append(dict(c, seed=i, fast=bool(i % 2)))
    return out


def gen(rng, k, tier):
    kw = dict(faoi=True, n_sections=40, max_rows=3) if k % 9 == 2 else {}
    c = cases.random_case(rng, k, tier, max_zenith=89.5, long_n=120,
                          long_every=41, many=(5, 7), **kw)
    c['seed'] = int(rng.integers(0, 2 ** 31))
    c['fast'] = bool(k % 3 == 0)
    return c


HOSTILE = [dict(zen=110., dni=0., dhi=0.), dict(zen=95., dni=0., dhi=5.),
           dict(zen=60., dni=float('nan'), dhi=float('nan')),
           dict(zen=60., dni=-10., dhi=50.), dict(zen=60., dni=50., dhi=-5.),
           dict(zen=179., dni=0., dhi=0.), dict(zen=40., dni=0., dhi=0.),
           dict(zen=90.5, dni=20., dhi=20.), dict(alb=0.), dict(alb=1.),
           dict(dni=5000., dhi=2000.), dict(dhi=0.), dict(zen=0.),
           dict(tilt=0.), dict(tilt=180.), dict(tilt=90.), dict(azi=-720.),
           dict(zen=120., dni=0., dhi=0., ghi=-4.), dict(ghi=0.),
           dict(ghi=float('nan')), dict(zen=100., dni=-2., dhi=-1., ghi=-3.),
           dict(zen=float('nan'), azi=float('nan'), dni=0., dhi=0.)] + [
               {k: float('nan')} for k in ('alb', 'tilt', 'saz', 'zen', 'azi',
                                           'dni', 'dhi', 'alb', 'tilt')]


def run(scn, fast, row):
    eng = sut.fit_engine(scn)
    if fast:
        return compare.fast_result(scn, eng, row), eng
    return compare.full_result(scn, eng), eng


def judge(case, mon):
    scn = case['scn']
    n = len(scn['t']['zen'])
    rng = np.random.default_rng(case['seed'])
    fast = case['fast']
    R = scn['arr']['n_pvrows']
    row = int(rng.integers(0, R))
    base, eng = run(scn, fast, row)
    v = view.View(scn, eng.pvarray)
    # pvlib divides by DHI-based clearness: a timestep is a timestep anyway
    tags = [v.step(i).classes(mon) for i in range(n)] if n <= 40 else ['long']
    scale = compare.scale_of(scn)
    mon.hit('fast' if fast else 'full', n)
    mon.hit('faoi', bool(scn.get('vf')))
    mon.hit('months', n if n > 1000 else 0)

    def check(kind, idxs, res, where):
        mon.hit(kind, len(idxs))
        compare.same(mon, base, res, idxs, where, TOL, kind,
                     'timestep result depends on other timesteps (%s)' % kind,
                     scale, fast=fast, row=row)
        for i in idxs:
            mon.sig(kind, fast, tags[i % len(tags)])

    # permuted
    perm = rng.permutation(n)
    r, _ = run(subset(scn, perm), fast, row)
    check('permuted', perm, r, np.arange(n))
    # sliced
    if n > 1:
        lo = int(rng.integers(0, n))
        hi = int(rng.integers(lo + 1, n + 1))
        ids = np.arange(lo, hi)
        r, _ = run(subset(scn, ids), fast, row)
        check('sliced', ids, r, np.arange(len(ids)))
    # single steps
    for i in (range(n) if n <= 5 else rng.choice(n, 4, replace=False)):
        r, _ = run(subset(scn, [int(i)]), fast, row)
        check('single', [int(i)], r, [0])
    # duplicated
    ids = np.sort(rng.integers(0, n, size=n + 3))
    r, _ = run(subset(scn, ids), fast, row)
    check('duplicated', ids, r, np.arange(len(ids)))
    # hostile steps inserted between the good ones
    k = int(rng.integers(1, 7))
    order, hostile = list(range(n)), []
    big = subset(scn, order)
    big['t'] = {x: list(y) for x, y in big['t'].items()}
    for _ in range(k):
        at = int(rng.integers(0, len(order) + 1))
        h = HOSTILE[int(rng.integers(0, len(HOSTILE)))]
        for x in big['t']:
            val = h.get(x, big['t'][x][min(at, len(big['t'][x]) - 1)])
            big['t'][x].insert(at, val)
        order.insert(at, -1)
    r, e = run(big, fast, row)
    good = [j for j, o in enumerate(order) if o >= 0]
    check('hostile', [order[j] for j in good], r, good)
    # flags of the timesteps that make no sense
    with sut.code('skip_step'):
        flags = np.asarray(e.skip_step)
        t = big['t']
        want = np.array([(t['zen'][j] > 90) or (t['dni'][j] < 0)
                         or (t['dhi'][j] < 0)
                         or (t['dni'][j] == 0 and t['dhi'][j] == 0)
                         for j in range(len(order))])
    mon.ok(flags.shape == want.shape and bool((flags == want).all()),
           'skip-flag', 'night or meaningless timesteps are not the flagged '
           'ones', got=flags, want=want)
    mon.hit('skip-flag', int(want.sum()))
