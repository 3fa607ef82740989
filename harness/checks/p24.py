"""P24: the light of the sky dome is the measured one, whatever the rows do."""
import numpy as np
import pandas as pd
from .. import cases, core, ref, sut

ID = 'P24'
RULE = ('random skies (clear to overcast, sun overhead to horizon, all days '
        'of the year) combined with many row orientations including vertical, '
        'horizontal and facing down, through the luminance function, the '
        'fitted models and a simulated array; non-trivial per distinct '
        'clearness bin, zenith bin and orientation bin')
COUNT = {'quick': 1040, 'thorough': 9000}
REQUIRED = {'step': 2000, 'front-sun': 500, 'back-sun': 500, 'overcast': 50,
            'clear': 200, 'low': 50, 'down': 100, 'flat': 100, 'leap': 50,
            'in-plane': 40, 'orientation': 1000, 'ground-ghi': 200,
            'isotropic-model': 100, 'duplicate-times': 100, 'all-bins': 8}
TOL = 1e-6
shrink = core.shrink_steps


def corners(tier):
    rng = np.random.default_rng(5)
    out = []
    for tilt in (0., 1e-3, 30., 90., 120., 150., 179., 180.):
        for saz in (90., 270.):
            c = gen(rng, 0, tier)
            n = len(c['t']['zen'])
            c['t']['tilt'] = [tilt] * n
            c['t']['saz'] = [saz] * n
            out.append(c)
    return out


def gen(rng, k, tier):
    n = int(rng.integers(6, 16))
    t = {q: [] for q in ('zen', 'azi', 'tilt', 'saz', 'dni', 'dhi', 'min')}
    year = int(rng.choice([2019, 2020, 2024]))
    for i in range(n):
        zen = float(rng.choice([rng.uniform(0, 85), rng.uniform(80, 89.5),
                                0., rng.uniform(20, 60)]))
        azi = float(rng.uniform(0, 360))
        tilt = float(rng.choice([rng.uniform(0, 90), rng.uniform(0, 180), 0.,
                                 90., rng.uniform(90, 145)]))
        saz = float(rng.choice([90., 270., rng.uniform(0, 360)]))
        if rng.random() < .12:     # sun in the plane of the rows
            tilt = 90. - zen if zen > 1 else 40.
            azi = (saz + 180.) % 360.
        top = 1100. * np.cos(np.radians(zen))
        dhi = float(rng.uniform(.03, .45) * top)
        dni = float(rng.choice([0., rng.uniform(0, 100),
                                rng.uniform(0, 1000),
                                rng.uniform(600, 1000)]))
        t['zen'].append(round(zen, 6))
        t['azi'].append(round(azi, 6))
        t['tilt'].append(round(tilt, 6))
        t['saz'].append(round(saz, 6))
        t['dni'].append(round(dni, 4))
        t['dhi'].append(round(max(dhi, .5), 4))
        t['min'].append(int(rng.integers(0, 366 * 1440)))
    if rng.random() < .4:
        t['min'] = [t['min'][0]] * n
    return {'year': year, 't': t, 'axis': float(rng.choice([0., 90., 33.]))}


def judge(case, mon):
    with sut.code('import'):
        from pvfactors.irradiance import (HybridPerezOrdered,
                                          IsotropicOrdered)
        from pvfactors.irradiance.utils import (breakup_df_inputs,
                                                perez_diffuse_luminance)
    t = {k: np.array(v, float) for k, v in case['t'].items()}
    n = len(t['zen'])
    ts = pd.Timestamp('%d-01-01' % case['year']) + pd.to_timedelta(
        case['t']['min'], unit='min')
    keep = {k: v.copy() for k, v in t.items()}
    with sut.code('perez_diffuse_luminance'):
        df = perez_diffuse_luminance(ts, t['tilt'], t['saz'], t['zen'],
                                     t['azi'], t['dni'], t['dhi'])
    mon.ok(all((t[k] == keep[k]).all() for k in t), 'inputs-kept')
    mon.ok(len(df) == n, 'length', got=len(df), want=n)
    cosd = (lambda x: np.cos(np.radians(x)))
    sind = (lambda x: np.sin(np.radians(x)))
    f = np.array([ref.perez(x.dayofyear, *(t[k][i] for k in (
        'zen', 'dni', 'dhi'))) for i, x in enumerate(ts)])
    cosf = cosd(t['tilt']) * cosd(t['zen']) + sind(t['tilt']) * sind(
        t['zen']) * cosd(t['azi'] - t['saz'])
    b = np.maximum(cosd(t['zen']), cosd(85.))
    # pvlib zeroes skies whose components sum below zero: not judged
    ok = np.ones(n, bool)
    for s in (1., -1.):
        tot = (.5 * (1 - f[:, 0]) * (1 + s * cosd(t['tilt']))
               + f[:, 0] * np.maximum(s * cosf, 0) / b
               + f[:, 1] * sind(t['tilt']))
        # (a side seeing no sky at all is handled: only the other one counts)
        ok &= (tot > 1e-6) | (1 + s * cosd(t['tilt']) < 1e-12)
    eps = ((t['dhi'] + t['dni']) / t['dhi'] + ref.KAPPA * np.radians(
        t['zen']) ** 3) / (1 + ref.KAPPA * np.radians(t['zen']) ** 3)
    cbin = np.digitize(eps, (0, 1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)) - 1
    for i in np.where(ok)[0]:
        mon.hit('step')
        mon.hit('front-sun' if cosf[i] > 0 else 'back-sun')
        mon.hit('overcast', cbin[i] == 0)
        mon.hit('clear', cbin[i] >= 5)
        mon.hit('all-bins', cbin[i] == 7 or cbin[i] == 3)
        mon.hit('low', t['zen'][i] > 85)
        mon.hit('down', t['tilt'][i] > 90)
        mon.hit('flat', t['tilt'][i] in (0., 180.))
        mon.hit('leap', ts[i].dayofyear == 366 or case['year'] != 2019)
        mon.hit('in-plane', abs(cosf[i]) < 1e-7)
        mon.sig(cbin[i], int(t['zen'][i] // 10), int(t['tilt'][i] // 15),
                int(cosf[i] * 4))
    mon.hit('duplicate-times', n if len(set(case['t']['min'])) < n else 0)
    sc = t['dhi'] + 1.
    iso, circ = t['dhi'] * (1 - f[:, 0]), t['dhi'] * f[:, 0]
    g = lambda c: df[c].values                                  # noqa: E731
    near = ok & (np.abs(cosf) > 1e-9)
    pl = ok & ~near

    def cmp(name, want, mask, tol=TOL):
        mon.close(g(name)[mask], want[mask], tol, name, scale=sc[mask])
    # a nearly invisible sky makes the ratio inaccurate
    good = ok & ((1 + cosd(t['tilt']) > 1e-9) | (cosf < 0))
    cmp('luminance_isotropic', iso, good)
    cmp('luminance_circumsolar', circ, good & near)
    cmp('luminance_circumsolar', circ, good & pl, 1e-4)
    cmp('poa_isotropic', iso * (1 + cosd(t['tilt'])) / 2., ok)
    cmp('poa_circumsolar', circ * np.maximum(cosf, 0) / b, ok)
    cmp('poa_horizon', t['dhi'] * f[:, 1] * sind(t['tilt']), ok)
    mon.close(g('poa_total_diffuse')[ok], (g('poa_isotropic') + g(
        'poa_circumsolar') + g('poa_horizon'))[ok], TOL, 'poa-total',
        scale=sc[ok])
    mon.close((g('luminance_isotropic') + g('luminance_circumsolar'))[good],
              t['dhi'][good], 1e-4, 'whole-dome', 'isotropic and circumsolar '
              'light do not add up to the diffuse light', scale=sc[good])
    mon.close(g('vf_isotropic'), (1 + cosd(t['tilt'])) / 2., 1e-12,
              'vf_isotropic')
    mon.close(g('vf_horizon'), sind(t['tilt']), 1e-12, 'vf_horizon')
    mon.close(g('vf_circumsolar'), np.maximum(cosf, 0) / b, 1e-9,
              'vf_circumsolar')
    for c, k in (('solar_zenith', 'zen'), ('solar_azimuth', 'azi'),
                 ('surface_tilt', 'tilt'), ('surface_azimuth', 'saz'),
                 ('dni', 'dni'), ('dhi', 'dhi')):
        mon.close(g(c), t[k], 0., 'echo:' + c)
    # ---- the same sky seen with other orientations
    rot = np.roll(np.arange(n), 1)
    tilt2, saz2 = t['tilt'][rot], (t['saz'][rot] + 17.) % 360.
    with sut.code('perez_diffuse_luminance'):
        d2 = perez_diffuse_luminance(ts, tilt2, saz2, t['zen'], t['azi'],
                                     t['dni'], t['dhi'])
    cf2 = cosd(tilt2) * cosd(t['zen']) + sind(tilt2) * sind(t['zen']) * cosd(
        t['azi'] - saz2)
    m = good & ((1 + cosd(tilt2) > 1e-9) | (cf2 < 0)) & near \
        & (np.abs(cf2) > 1e-9)
    for s in (1., -1.):
        m &= (.5 * (1 - f[:, 0]) * (1 + s * cosd(tilt2)) + f[:, 0]
              * np.maximum(s * cf2, 0) / b + f[:, 1] * sind(tilt2)) > 1e-6
    for c in ('luminance_isotropic', 'luminance_circumsolar'):
        mon.close(d2[c].values[m], g(c)[m], TOL, 'orientation:' + c,
                  'sky light depends on the orientation of the rows',
                  scale=sc[m])
    mon.hit('orientation', int(m.sum()))
    # ---- breakup of the frame
    with sut.code('breakup_df_inputs'):
        parts = breakup_df_inputs(df)
    mon.ok(list(parts[0]) == list(ts), 'breakup', 'timestamps')
    for got, k in zip(parts[1:], ('tilt', 'saz', 'zen', 'azi', 'dni', 'dhi')):
        mon.close(got, t[k], 0., 'breakup', k)
    # ---- what the models say of the sky
    alb = np.full(n, .2)
    with sut.code('fitting models'):
        h, s = HybridPerezOrdered(), IsotropicOrdered()
        for mdl in (h, s):
            mdl.fit(ts, t['dni'], t['dhi'], t['zen'], t['azi'], t['tilt'],
                    t['saz'], alb)
        hl, sl = np.asarray(h.sky_luminance), np.asarray(s.sky_luminance)
        hg, sg = np.asarray(h.gnd_illum), np.asarray(s.gnd_illum)
    mon.close(hl[good], iso[good], TOL, 'hybrid-luminance', scale=sc[good])
    mon.close(sl, t['dhi'], 1e-12, 'isotropic-luminance', scale=sc)
    ghi = t['dni'] * cosd(t['zen']) + t['dhi']
    mon.close(hg, ghi, 1e-9, 'ground-total', scale=ghi + 1)
    mon.close(sg, ghi, 1e-9, 'ground-total', scale=ghi + 1)
    mon.hit('isotropic-model', n)
    # ---- ground far from a tiny row receives the global irradiance
    with sut.code('simulating one small row'):
        from pvfactors.engine import PVEngine
        arr = sut.OrderedPVArray.init_from_dict(
            {'n_pvrows': 1, 'pvrow_height': .03, 'pvrow_width': .02,
             'gcr': .5, 'axis_azimuth': case['axis']})
        side = np.where(np.arange(n) % 2 == 0, 90., 270.) + case['axis']
        tl = np.minimum(t['tilt'], 170.)
        eng = PVEngine(arr, irradiance_model=HybridPerezOrdered(
            rho_front=.01, rho_back=.01))
        eng.fit(ts, t['dni'], t['dhi'], t['zen'], t['azi'], tl,
                side, alb)
        eng.run_full_mode()
        cols = arr.ts_ground.illum.list_ts_surfaces
        q = np.stack([np.broadcast_to(np.asarray(x.get_param('qinc'), float),
                                      n) for x in cols])
        L = np.stack([np.broadcast_to(np.asarray(x.length, float), n)
                      for x in cols])
    best = q[np.argmax(L, axis=0), np.arange(n)]
    cf3 = cosd(tl) * cosd(t['zen']) + sind(tl) * sind(t['zen']) * cosd(
        t['azi'] - side)
    m = np.abs(cf3) > 1e-7
    for sg_ in (1., -1.):
        m &= (.5 * (1 - f[:, 0]) * (1 + sg_ * cosd(tl)) + f[:, 0]
              * np.maximum(sg_ * cf3, 0) / b + f[:, 1] * sind(tl)) > 1e-6
    mon.close(best[m], ghi[m], 2e-3, 'ground-receives-ghi', 'open ground '
              'does not receive the global irradiance', scale=ghi[m] + 1)
    mon.hit('ground-ghi', int(m.sum()))
