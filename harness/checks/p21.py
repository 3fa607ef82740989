"""P21: light adds up, and more light in or more reflection never means less
light anywhere."""
import copy
import numpy as np
from .. import cases, compare, core, sut, view
from ..ref import Sky

ID = 'P21'
RULE = ('random and directed scenes simulated repeatedly with the light '
        'sources split, scaled or increased, and with reflectivities, '
        'transparency, spacing or horizon band increased, in full and fast '
        'mode; non-trivial per distinct relation, mode, model and situation '
        'of a compared timestep')
COUNT = {'quick': 160, 'thorough': 4500}
REQUIRED = {'sum': 200, 'scale': 200, 'sources': 100, 'alb': 200,
            'rho_front': 150, 'rho_back': 150, 'module_transparency': 150,
            'module_spacing_ratio': 150, 'horizon_band_angle': 80,
            'dni': 100, 'dhi': 100, 'through-same': 150, 'clear': 100,
            'full': 200, 'fast': 100, 'shade_front': 60, 'shade_back': 20,
            'strict': 500}
ASSUMPTIONS = ['superposition is a property of the isotropic sky model: the '
               'Perez model splits diffuse light nonlinearly',
               'timesteps with a negative Perez luminance (F1 > 1) are not '
               'judged']
TOL = 1e-8
shrink = core.shrink_steps


def corners(tier):
    return [dict(c, seed=i, fast=(i % 4 == 0))
            for i, c in enumerate(cases.corner_cases())]


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89., long_every=0,
                          many=(5, 7), ghi=False,
                          model='isotropic' if k % 2 else 'hybrid')
    c['seed'] = int(rng.integers(0, 2 ** 31))
    c['fast'] = bool(k % 3 == 2)
    return c


def judge(case, mon):
    scn = copy.deepcopy(case['scn'])
    scn['t'].pop('ghi', None)
    rng = np.random.default_rng(case['seed'])
    t, irr = scn['t'], scn['irr']
    n = len(t['zen'])
    fast = case['fast']
    R = scn['arr']['n_pvrows']
    row = int(rng.integers(0, R))
    hyb = irr['model'] == 'hybrid'

    def run(s):
        eng = sut.fit_engine(s)
        return (compare.fast_result(s, eng, row) if fast
                else compare.full_result(s, eng))

    def var(light=None, **kw):
        s = copy.deepcopy(scn)
        for k, x in kw.items():
            if k in ('alb',):
                s['t'][k] = x
            else:
                s['irr'][k] = x
        if light is not None:
            s['t']['dni'], s['t']['dhi'] = light
        return s

    base = run(scn)
    vw = view.fitted(scn)
    skies = [Sky(scn, i) for i in range(n)]
    good = np.array([x.regular and not x.grazing and
                     (not hyb or x.f1 <= 1) for x in skies])
    # the hybrid model may assume negative light on shaded fronts (KF1)
    if fast and hyb:
        good &= np.array([
            x.perez_total_front() - (1. - x.through)
            * (x.direct['front'] + x.circ['front']) > 0 for x in skies])
    tags = [vw.step(i).classes(mon) for i in range(n)]
    mon.hit('fast' if fast else 'full', n)
    sc = compare.scale_of(scn)
    live = (base.L > 1e-6) & good[None, :]
    scm = np.broadcast_to(sc, live.shape)[live]
    names = ['qinc', 'isotropic', 'reflection']

    def note(kind):
        mon.hit(kind, int(good.sum()))
        for i in np.where(good)[0]:
            mon.sig(kind, fast, hyb, tags[i])

    dni, dhi = np.array(t['dni']), np.array(t['dhi'])
    if not hyb:
        # ---- superposition
        f, g = rng.uniform(.05, .95, n), rng.uniform(.05, .95, n)
        a = run(var(((f * dni).tolist(), (g * dhi).tolist())))
        b = run(var((((1 - f) * dni).tolist(), ((1 - g) * dhi).tolist())))
        for k in names:
            mon.close((a.p[k] + b.p[k])[live], base.p[k][live], TOL,
                      'superposition:' + k, 'light of two sources is not the '
                      'sum of the light of each', scale=scm, fast=fast)
        note('sum')
        # ---- scaling
        f = rng.uniform(.1, 3., n)
        a = run(var(((f * dni).tolist(), (f * dhi).tolist())))
        for k in names:
            mon.close(a.p[k][live], (f[None, :] * base.p[k])[live], TOL,
                      'scaling:' + k, 'scaled light', scale=3 * scm,
                      fast=fast)
        note('scale')
        # ---- beam only and sky only
        two = (dni > 0) & (dhi > 0)
        a = run(var((dni.tolist(), [0.] * n)))
        b = run(var(([0.] * n, dhi.tolist())))
        m = live & two[None, :]
        for k in names:
            mon.close((a.p[k] + b.p[k])[m], base.p[k][m], TOL,
                      'beam-plus-sky:' + k, 'beam and sky light do not add '
                      'up', scale=np.broadcast_to(sc, m.shape)[m], fast=fast)
        mon.close(a.p['isotropic'][m], 0., TOL, 'beam-has-no-sky', '')
        note('sources')
        # ---- monotone in each source
        for k, lt in (('dni', ((dni * 1.3 + 5.).tolist(), dhi.tolist())),
                      ('dhi', (dni.tolist(), (dhi * 1.3 + 5.).tolist()))):
            more(mon, base, run(var(lt)), live, scm, k, fast)
            note(k)
    # ---- monotone in reflectivities and transmission
    up = (lambda x, top: float(x + rng.uniform(.2, 1.) * (top - x)))
    alb = [up(x, .998) for x in t['alb']]
    a = run(var(alb=alb))
    more(mon, base, a, live, scm, 'alb', fast)
    grow = (a.p['qinc'] - base.p['qinc'])[live]
    mon.hit('strict', int((grow > 1e-6 * scm).sum()))
    note('alb')
    for k, d in (('rho_front', .01), ('rho_back', .03)):
        a = run(var(**{k: up(irr.get(k, d), .97)}))
        more(mon, base, a, live, scm, k, fast)
        note(k)
    keys = ['module_transparency', 'module_spacing_ratio']
    cur = {k: irr.get(k, 0.) for k in keys}
    for k in keys:
        a = run(var(**{k: up(cur[k], 1.)}))
        more(mon, base, a, live, scm, k, fast)
        note(k)
    if hyb:
        a = run(var(horizon_band_angle=up(irr.get('horizon_band_angle', 6.5),
                                          90.)))
        more(mon, base, a, live, scm, 'horizon_band_angle', fast)
        note('horizon_band_angle')
    # ---- spacing and transparency only matter through what they let through
    tot = cur[keys[1]] + (1. - cur[keys[1]]) * cur[keys[0]]
    for k, o in (keys, keys[::-1]):
        a = run(var(**{k: tot, o: 0.}))
        for nm in names:
            mon.close(a.p[nm][live], base.p[nm][live], TOL,
                      'transmission:' + nm, 'same transmission, other result',
                      scale=scm, fast=fast)
        note('through-same')
    # ---- transparent modules cast no shade
    a = run(var(**{keys[0]: 1.}))
    if fast:
        note('clear')
        return
    for k in ['direct'] + (['circumsolar'] if hyb else []):
        for kind in ('g', 'front', 'back'):
            idx = [j for j, s in enumerate(base.surfs)
                   if (s.kind if s.kind == 'g' else s.side) == kind]
            p = a.p[k][idx]
            mon.close(p, np.broadcast_to(p.max(axis=0), p.shape), TOL,
                      'clear:' + k, 'transparent modules cast shade on '
                      + kind, scale=sc[None, :])
    note('clear')


def more(mon, a, b, live, scm, what, fast):
    for k in ('qinc', 'reflection'):
        mon.leq(a.p[k][live], b.p[k][live], TOL, 'monotone:' + k,
                'less light with more ' + what, scale=scm, fast=fast)
