"""P06: full mode solves the reflection equilibrium."""
import numpy as np
from .. import cases, core, sut, view

ID = 'P06'
RULE = ('random and directed full mode simulations; every surface of every '
        'timestep judged against the balance equations; non-trivial per '
        'distinct situation of a judged timestep and irradiance model')
COUNT = {'quick': 750, 'thorough': 9000}
REQUIRED = {'step': 1000, 'flat': 20, 'over': 40, 'shade_front': 50,
            'shade_back': 20, 'left': 100, 'cut': 100, 'reflecting': 2000,
            'mirrors': 200, 'black-front': 100, 'black-back': 100,
            'black-ground': 100, 'perfect-mirror': 100}
shrink = core.shrink_steps
TOL = 1e-8


def corners(tier):
    out = cases.corner_cases()
    for k, c in enumerate(cases.corner_cases()):
        mirrors(c['scn'], .97 - .01 * (k % 4), .98)
        out.append(c)
    return out


def mirrors(scn, rho, alb):
    """Strong reflections between everything."""
    scn['irr'].update(rho_front=rho, rho_back=rho - .01)
    scn['t']['alb'] = [alb] * len(scn['t']['alb'])


def black(scn, kind):
    """Surfaces that reflect nothing still receive light."""
    t = scn['t']
    if kind & 1 or kind > 5:
        scn['irr']['rho_front'] = 0.
    if kind & 2 or kind > 5:
        scn['irr']['rho_back'] = 0.
    if kind & 4 or not kind:
        t['alb'] = [0. if i % 3 != kind % 2 else x
                    for i, x in enumerate(t['alb'])]


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89.5)
    if k % 5 == 2:
        mirrors(c['scn'], round(float(rng.uniform(.8, .97)), 3), .98)
        if k % 15 == 2:      # perfect ones
            c['scn']['irr'][('rho_front', 'rho_back')[k % 2]] = 1.
            if k % 4 == 1:
                c['scn']['t']['alb'] = [1.] * len(c['scn']['t']['alb'])
        if k % 10 == 2:
            a = c['scn']['arr']
            a['pvrow_height'] = round(a['pvrow_width'] * .5 + .05, 5)
    elif k % 9 == 4:
        black(c['scn'], int(rng.integers(0, 7)))
    return c


def judge(case, mon):
    from pvfactors.viewfactors import VFCalculator
    scn = case['scn']
    v = view.full(scn)
    names = ['direct', 'rho', 'q0', 'qinc', 'isotropic', 'reflection', 'qabs']
    hyb = scn['irr']['model'] == 'hybrid'
    if hyb:
        names += ['circumsolar', 'horizon']
    p = {k: v.param(k) for k in names}
    with sut.code('matrices'):
        F = np.asarray(v.arr.ts_vf_matrix, float)
        lum = np.asarray(v.engine.irradiance.sky_luminance, float)
        fresh = sut.fit_array(scn)
        calc = VFCalculator()
        calc.fit(v.n)
        F2 = np.asarray(calc.build_ts_vf_matrix(fresh), float)
    n = v.ns
    irr = p['direct'] + (p['circumsolar'] + p['horizon'] if hyb else 0.)
    live = v.real()
    for i in range(v.n):
        st = v.step(i)
        if not st.usable:
            mon.ev('skipped-irregular')
            continue
        mon.sig(scn['irr']['model'], st.classes(mon))
        m = live[:, i]
        sc = v.scale[i]
        Fi = F[:n, :n, i][np.ix_(m, m)]
        q = p['qinc'][m, i]
        rho = p['rho'][m, i]
        refl = Fi @ (rho * q)
        mon.hit('black-front', scn['irr'].get('rho_front') == 0.)
        mon.hit('black-back', scn['irr'].get('rho_back') == 0.)
        mon.hit('black-ground', scn['t']['alb'][i] == 0.)
        mon.hit('perfect-mirror', 1. in (scn['irr'].get('rho_front'),
                                         scn['irr'].get('rho_back')))
        mon.hit('mirrors', scn['irr'].get('rho_back', 0.) > .75)
        mon.hit('reflecting', int((refl > 1e-3).sum()))
        mon.close(p['q0'][m, i], rho * q, TOL, 'radiosity',
                  'radiosity is not reflectivity times incident',
                  scale=sc, step=i)
        mon.close(p['isotropic'][m, i], F[:n, n, i][m] * lum[i], TOL,
                  'isotropic', 'isotropic term is not sky view times '
                  'luminance', scale=sc, step=i)
        mon.close(p['reflection'][m, i], refl, TOL, 'reflection',
                  'reflected light is not what the seen surfaces send',
                  scale=sc, step=i)
        mon.close(q, irr[m, i] + p['isotropic'][m, i] + p['reflection'][m, i],
                  TOL, 'decomposition',
                  'incident light is not the sum of its components',
                  scale=sc, step=i)
        mon.close(p['qabs'][m, i], (1. - rho) * q, TOL, 'absorbed',
                  'absorbed light is not incident minus reflected',
                  scale=sc, step=i)
        mon.close(F[:n, :, i][m], F2[:n, :, i][m], 1e-10, 'matrix-kept',
                  'stored view factor matrix differs from a fresh one',
                  step=i)


