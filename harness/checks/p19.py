"""P19: results are finite, non-negative and bounded by the available light."""
import numpy as np
from .. import cases, core, sut, view
from ..ref import Sky

ID = 'P19'
RULE = ('random, directed and hostile simulations (sun in the plane of the '
        'rows, sun at the horizon or overhead, rows almost flat, vertical or '
        'upside down, one kind of light only, dense and distant rows, almost '
        'black or almost white surfaces) in full and fast mode; non-trivial '
        'per distinct hostile style, situation, mode and model')
COUNT = {'quick': 1600, 'thorough': 9000}
REQUIRED = {'step': 1500, 'grazing': 60, 'horizon-sun': 60, 'no-dni': 60,
            'no-dhi': 40, 'full': 100, 'fast': 50, 'faoi': 20, 'dense': 20,
            'bounded': 5000, 'flat': 60, 'irregular': 10, 'white': 30, 'black': 100,
            'physical': 1000,
            'lacks-dni': 20, 'lacks-dhi': 20, 'lacks-zen': 20,
            'lacks-azi': 20, 'lacks-tilt': 20, 'lacks-saz': 20,
            'lacks-alb': 20, 'lacks-dark': 60, 'lacks-night': 60}
shrink = core.shrink_steps
ASSUMPTIONS = ['albedo and reflectivities are below 1, '
               'zenith below 90 degrees, DNI + DHI positive: other timesteps '
               'are documented as not simulated, or are degenerate inputs',
               'timesteps whose Perez circumsolar brightness exceeds all of '
               'the diffuse light (pvlib returns F1 > 1, mostly for more '
               'diffuse light than the extraterrestrial irradiance) have a '
               'negative isotropic luminance by definition: only finiteness '
               'is judged']
TOL = 1e-7


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        out.append(dict(c, mode='full'))
        if i % 3 == 0:
            out.append(dict(c, mode='fast', row=i))
    return out


def gen(rng, k, tier):
    kw = {}
    if k % 5 == 1:
        kw = dict(faoi=True, n_sections=int(rng.choice([30, 200])), max_rows=3)
    c = cases.random_case(rng, k, tier, max_zenith=89.9, long_n=100,
                          many=(5, 9), **kw)
    scn = c['scn']
    arr, t = scn['arr'], scn['t']
    ax = arr['axis_azimuth']
    n = len(t['zen'])
    if k % 2:
        for i in range(n):
            s = int(rng.integers(0, 12))
            t['style'][i] = 'hostile%d' % s
            if s == 0:      # sun exactly in the plane of the rows
                tilt = float(rng.uniform(5, 85))
                t['tilt'][i] = tilt
                t['zen'][i] = float(90. - tilt)
                t['saz'][i] = (ax + 90.) % 360.
                t['azi'][i] = (ax + 270.) % 360.
            elif s == 1:
                t['zen'][i] = float(rng.choice([89.5, 89.9, 89.99, 88.]))
            elif s == 2:
                t['zen'][i] = 0.
            elif s == 3:
                t['tilt'][i] = float(rng.choice([1e-6, 1e-3, .01, 90., 90.001,
                                                 89.999, 180., 179.999]))
            elif s == 4:    # sun along the rows
                t['azi'][i] = (ax + float(rng.choice([0., 180.]))) % 360.
            elif s == 5:
                t['dni'][i] = 0.
                t['dhi'][i] = max(t['dhi'][i], 1.)
            elif s == 6:
                t['dhi'][i] = 0.
                t['dni'][i] = max(t['dni'][i], 1.)
            elif s == 7:
                t['dni'][i], t['dhi'][i] = (
                    float(rng.choice([1e-3, 1., 1400.])),
                    float(rng.choice([1e-3, 1., 900.])))
            elif s == 8:
                t['alb'][i] = float(rng.choice([0., 1e-4, .999, .99]))
            elif s == 9:    # vertical rows, sun along them
                t['tilt'][i] = 90.
                t['azi'][i] = (ax + 180.) % 360.
            elif s == 10:
                t['tilt'][i] = 0.
                t['azi'][i] = (ax + 90. * float(rng.integers(0, 4))) % 360.
            else:           # overcast with rows facing down
                t['tilt'][i] = float(rng.uniform(150., 180.))
                t['dni'][i] = 0.
                t['dhi'][i] = max(t['dhi'][i], 10.)
        t.pop('ghi', None)
        w = rng.random()
        if w < .2:
            arr['gcr'] = .99
            arr['n_pvrows'] = min(arr['n_pvrows'], 4)
            arr.pop('cut', None)
        elif w < .35:
            arr['pvrow_height'] = arr['pvrow_width'] * .5 + 1e-6
        elif w < .5:
            for s in ('rho_front', 'rho_back'):
                scn['irr'][s] = float(rng.choice([0., 1e-6, .97]))
    # mostly diffuse light that the sky can send (see ASSUMPTIONS)
    if k % 7:
        for i in range(n):
            top = 900. * np.cos(np.radians(t['zen'][i]))
            t['dhi'][i] = min(t['dhi'][i], float(rng.uniform(.2, 1.)) * top)
        t.pop('ghi', None)
    c['mode'] = 'fast' if k % 3 == 2 else 'full'
    c['row'] = int(rng.integers(0, 50))
    c['seed'] = int(rng.integers(0, 2 ** 31))
    return c


LACKING = ('dni', 'dhi', 'zen', 'azi', 'tilt', 'saz', 'alb')


def missing(scn, fast, row, rng, mon):
    """Timesteps that lack an input have no light, dark ones have none, and
    the ones that make no sense are flagged."""
    t = {k: list(v) for k, v in scn['t'].items()}
    ok = [j for j in range(len(t['zen'])) if 5. <= t['tilt'][j] <= 175.
          and t['zen'][j] < 89.]
    if not ok:
        return
    what = [''] * len(t['zen'])
    names = list(LACKING) + (['ghi'] if fast and 'ghi' in t else [])
    for k in list(rng.choice(names, 3, replace=False)) + ['dark', 'night']:
        j = int(rng.choice(ok))
        at = int(rng.integers(0, len(what) + 1))
        step = {q: scn['t'][q][j] for q in t}
        if k in ('dark', 'night'):
            step.update(dni=0., dhi=0.)
            if 'ghi' in t:
                step['ghi'] = 0.
            if k == 'night':
                step['zen'] = float(rng.uniform(90.1, 175.))
        else:
            step[k] = float('nan')
        what.insert(at, str(k))
        for q in t:
            t[q].insert(at, step[q])
    s = dict(scn, t=t)
    s.pop('pre', None)    # (no snapshots of a timestep without geometry)
    eng = sut.fit_engine(s)
    with sut.code('a series with missing data'):
        if fast:
            eng.run_fast_mode(pvrow_index=row)
            parts = [('back', eng.pvarray.ts_pvrows[row].back)]
        else:
            eng.run_full_mode()
            parts = [('ground', eng.pvarray.ts_ground)] + [
                (nm, getattr(r, nm)) for r in eng.pvarray.ts_pvrows
                for nm in ('front', 'back')]
        q = [np.asarray(x.get_param_weighted('qinc'), float)
             for _, x in parts]
        flags = np.asarray(eng.skip_step)
    for i, k in enumerate(what):
        if not k:
            continue
        got = [x[i] for x in q]
        if k in ('dark', 'night'):
            mon.ok(all(np.isnan(x) or abs(x) < TOL for x in got), 'dark',
                   'light in the dark', got=got)
            mon.ok(bool(flags[i]), 'flagged', 'a timestep without light is '
                   'not flagged')
        else:
            mon.ok(bool(np.isnan(got).all()), 'missing:' + k,
                   'light of a timestep without ' + k, got=got, fast=fast)
            mon.sig('missing', k, fast, scn['irr']['model'])
        mon.hit('lacks-' + k)


def judge(case, mon):
    scn, t = case['scn'], case['scn']['t']
    n = len(t['zen'])
    eng = sut.fit_engine(scn)
    hyb = scn['irr']['model'] == 'hybrid'
    rmax = max(max(t['alb']), scn['irr'].get('rho_front', .01),
               scn['irr'].get('rho_back', .03))
    fast = case['mode'] == 'fast'
    row = case.get('row', 0) % scn['arr']['n_pvrows']
    with sut.code('running'):
        if fast:
            eng.run_fast_mode(pvrow_index=row)
        else:
            eng.run_full_mode()
    v = view.View(scn, eng.pvarray, eng)
    if n <= 20 and (case.get('seed', 0) % 3 == 0):
        missing(scn, fast, row, np.random.default_rng(case.get('seed', 0)),
                mon)
    mon.hit(case['mode'])
    mon.hit('faoi', bool(scn.get('vf')))
    mon.hit('dense', scn['arr']['gcr'] > .9)
    mon.hit('white', rmax > .9)
    mon.hit('black', min(min(t['alb']), scn['irr'].get('rho_front', .01),
                         scn['irr'].get('rho_back', .03)) == 0.)
    faoi = bool(scn.get('vf')) or 'faoi_front' in scn['irr']
    skies = [Sky(scn, i) for i in range(n)]
    for i, s in enumerate(skies):
        mon.hit('step')
        mon.hit('grazing', s.grazing)
        mon.hit('horizon-sun', t['zen'][i] > 87)
        mon.hit('no-dni', t['dni'][i] == 0)
        mon.hit('no-dhi', t['dhi'][i] == 0)
        mon.hit('flat', t['tilt'][i] in (0., 180.))
        mon.hit('irregular', not s.regular)
        mon.sig(case['mode'], hyb, t['style'][i], int(t['tilt'][i] // 15),
                int(t['zen'][i] // 15), s.grazing, s.regular,
                v.surfs and scn['arr']['n_pvrows'] > 1)
    if fast:
        idx = [k for k, s in enumerate(v.surfs) if s.kind == 'r'
               and s.row == row and s.side == 'back']
        names = ['qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
                 'reflection_gnd_illum', 'reflection_pvrow_shaded',
                 'reflection_pvrow_illum', 'sky_term']
    else:
        idx = list(range(v.ns))
        names = ['qinc', 'q0', 'isotropic', 'reflection', 'direct', 'qabs',
                 'total_perez', 'rho', 'direct_absorbed']
        if hyb:
            names += ['circumsolar', 'horizon', 'circumsolar_absorbed',
                      'horizon_absorbed']
    with sut.code('reading'):
        p = {k: np.stack([np.broadcast_to(np.asarray(
            v.surfs[j].ts.get_param(k), float), n) for j in idx])
            for k in names}
    live = v.real()[idx]
    sc = v.scale
    phys = np.array([not hyb or x.f1 <= 1. for x in skies])
    mon.hit('physical', int(phys.sum()))
    # known finding: front sides in the shade of the hybrid model
    low = np.array([hyb and x.perez_total_front() - (1. - x.through)
                    * (x.direct['front'] + x.circ['front']) < 1e-6
                    for x in skies])
    sfront = np.array([x.kind == 'r' and x.side == 'front' and x.shaded
                       for x in (v.surfs[j] for j in idx)])
    known = None
    for k in names:
        bad = ~np.isfinite(p[k]) & live
        w = np.argwhere(bad)
        mon.ok(not len(w), 'finite:' + k, 'value is not finite',
               where=w[:4].tolist(), labels=[v.surfs[idx[x]].label
                                             for x in w[:4, 0]],
               times={q: t[q][int(w[0, 1])] for q in t} if len(w) else None)
        x, m = p[k], live & phys[None, :]
        if k == 'total_perez' or (fast and k == 'reflection_pvrow_shaded'):
            ex = low[None, :] & (sfront[:, None] | fast)
            if (x < -TOL * sc)[ex & m].any():
                known = float(x[ex & m].min())
            m = m & ~ex
        elif fast and k in ('qinc', 'reflection'):
            x = np.where(low[None, :], x - p['reflection_pvrow_shaded'], x)
        mon.leq(-x[m], 0., TOL, 'non-negative:' + k,
                'negative light', scale=np.broadcast_to(sc, m.shape)[m])
    # everything a segment or row reports is finite too
    with sut.code('get_param_weighted'):
        rows = [v.arr.ts_pvrows[row]] if fast else v.arr.ts_pvrows
        for r in rows:
            for side in ((r.back,) if fast else (r.front, r.back)):
                q = np.asarray(side.get_param_weighted('qinc'), float)
                mon.ok(bool(np.isfinite(q).all()), 'finite-weighted',
                       'row average is not finite', got=q)
                m = phys & ~(low & fast)
                mon.leq(-q[m], 0., TOL, 'non-negative-weighted', scale=sc[m])
    # ---- geometry and view factors are finite and physical
    mon.ok(bool(np.isfinite(v.C).all()), 'finite:coordinates')
    if not fast:
        with sut.code('view factors'):
            F = np.asarray(v.arr.ts_vf_matrix, float)
        mon.ok(bool(np.isfinite(F).all()), 'finite:view-factors')
        m = live & phys[None, :]
        if not faoi:      # with losses by angle: see P15
            mon.leq(p['qabs'][m], p['qinc'][m], 1e-6,
                    'absorbed-below-incident', scale=np.broadcast_to(
                        sc, m.shape)[m])
    # ---- bounded by the light available
    for i, s in enumerate(skies):
        if not s.regular or not phys[i]:
            continue
        top = max(s.dir_gnd + s.circ_gnd,
                  *(s.direct[x] + s.circ[x] + s.hor for x in s.direct))
        lit = live[:, i]
        if fast:
            # one bounce: what neighbors and ground can send at most
            rf = scn['irr'].get('rho_front', .01)
            tot_front = s.perez_total_front()
            tot_gnd = s.dir_gnd + s.dhi
            bound = top + s.lum_iso + s.dhi + rf * max(tot_front, 0.) \
                + s.alb * tot_gnd
        else:
            bound = (top + s.lum_iso) / (1. - max(
                s.alb, scn['irr'].get('rho_front', .01),
                scn['irr'].get('rho_back', .03)))
        mon.leq(p['qinc'][lit, i], bound, TOL, 'bounded',
                'more light than available', scale=s.dni + s.dhi + 1.,
                step=i)
        mon.hit('bounded', int(lit.sum()))
    if known is not None:
        mon.fail('shaded-front-total', 'negative light assumed on shaded '
                 'fronts by the hybrid model', value=known)


def is_known(finding, case, payload):
    return (finding['rule'] == 'shaded-front-total'
            and payload['n_viol'] == 1
            and payload['violations'][0]['rule'] == finding['rule'])
