"""P22: partial shading of the circumsolar disk and of the horizon band
follows their geometry."""
import numpy as np
from scipy import integrate

ID = 'P22'
RULE = ('random, extreme and ordered covered distances and elevation angles, '
        'scalars of every numeric type and arrays of any shape; non-trivial '
        'per distinct function, range bin and input form')
COUNT = {'quick': 2000, 'thorough': 12000}
REQUIRED = {'disk': 500, 'gauss': 500, 'band': 500, 'edge': 100,
            'outside': 100, 'unknown-model': 20, 'density': 100,
            'end-to-end': 5, 'whole-angles': 20}
TOL = 1e-7
EDGES = [-1e9, -50., -1e-9, -0., 0., 1e-9, 1e-3, 25., 49.999999999, 50.,
         50.000000001, 75., 99.999, 99.9999999, 100., 100.0000001, 250., 1e9]
FORMS = ['float', 'np64', 'np32', 'int', '0d']


def corners(tier):
    out = []
    for f in FORMS:
        pts = [round(e) for e in EDGES] if f == 'int' else EDGES
        out.append({'pct': pts, 'form': f, 'band': 6.5,
                    'ang': [-30., -1e-9, 0., 1e-9, 3.25, 6.4999999, 6.5,
                            6.500001, 45., 90.], 'shape': 'flat'})
    return out


def gen(rng, k, tier):
    form = str(rng.choice(FORMS))
    n = int(rng.integers(3, 9))
    pct = rng.uniform(-30, 130, n)
    if k % 5 == 0:
        pct = np.concatenate([pct, rng.choice(EDGES, 2)])
    if k % 3 == 0:
        pct = np.concatenate([pct, 100. - pct])
    if form == 'int':
        pct = np.round(pct)
    if form == 'np32':
        pct = pct.astype(np.float32).astype(float)
    band = float(rng.choice([6.5, rng.uniform(.1, 90.), 1., 30.]))
    ang = np.concatenate([rng.uniform(-20, 90, 4),
                          rng.uniform(0, 1.2 * band, 4), [0., band]])
    return {'pct': [float(x) for x in pct], 'form': form, 'band': band,
            'ang': [float(x) for x in ang],
            'shape': str(rng.choice(['flat', 'scalar', '2d', 'series', 'int',
                                     'int-scalar', 'int32', 'float32']))}


def _form(x, form):
    if form == 'int':
        return int(x)
    if form == 'np64':
        return np.float64(x)
    if form == 'np32':
        return np.float32(x)
    if form == '0d':
        return np.array(x)
    return float(x)


def _disk(p):
    """Covered area of the unit disk, integrating chords."""
    h = np.clip(p / 100., 0., 1.) * 2.
    if h <= 0:
        return 0.
    # substitution x = -cos t makes the integrand smooth
    t = np.arccos(np.clip(1. - h, -1., 1.))
    x, w = np.polynomial.legendre.leggauss(40)
    tt = .5 * t * (x + 1.)
    return float((2. * np.sin(tt) ** 2) @ w * .5 * t / np.pi * 100.)


def _gauss(p):
    p = np.clip(p, 0., 100.)
    f = (lambda z: np.exp(-.5 * z * z))
    tot = integrate.quad(f, -3., 3., epsabs=1e-13)[0]
    return integrate.quad(f, -3., -3. + 6. * p / 100.,
                          epsabs=1e-13)[0] / tot * 100.


def judge(case, mon):
    from .. import sut
    with sut.code('import'):
        from pvfactors import PVFactorsError
        from pvfactors.irradiance import utils as U
    vals = {'uniform_disk': [], 'gaussian': []}
    for p in case['pct']:
        x = _form(p, case['form'])
        edge = min(abs(p), abs(p - 50), abs(p - 100)) < 1e-3
        for model, want in (('uniform_disk', _disk(p)),
                            ('gaussian', _gauss(p))):
            with sut.code('calculate_circumsolar_shading'):
                got = U.calculate_circumsolar_shading(x, model=model)
                direct = (U.uniform_circumsolar_disk_shading(x)
                          if model == 'uniform_disk'
                          else U.gaussian_shading(x))
            tol = 1e-4 if case['form'] == 'np32' else TOL
            mon.close(got, want, tol, 'circumsolar:' + model, 'covered %r'
                      % p, scale=100.)
            mon.close(direct, want, tol, 'circumsolar-direct:' + model,
                      'covered %r' % p, scale=100.)
            vals[model].append((p, float(got)))
            mon.hit('disk' if model == 'uniform_disk' else 'gauss')
            mon.hit('edge', edge)
            mon.hit('outside', p < 0 or p > 100)
            mon.sig(model, case['form'], int(np.clip(p, -20, 120) // 10),
                    edge)
        with sut.code('default circumsolar model'):
            dflt = U.calculate_circumsolar_shading(x)
        mon.close(dflt, _disk(p), 1e-4 if case['form'] == 'np32' else TOL,
                  'default-model', 'covered %r' % p, scale=100.)
    for model, pv in vals.items():
        pv.sort()
        v = np.array([y for _, y in pv])
        mon.leq(0., v, 1e-9, 'range', model)
        mon.leq(v, 100., 1e-9, 'range', model)
        mon.leq(v[:-1], v[1:], 1e-4 if case['form'] == 'np32' else 1e-9,
                'monotone', model)
    for bad in ('disk', 'GAUSSIAN', '', None):
        try:
            U.calculate_circumsolar_shading(30., model=bad)
            mon.fail('unknown-model', 'no error for model %r' % (bad,))
        except PVFactorsError:
            mon.ev('unknown-model')
        except Exception as e:
            mon.fail('unknown-model', 'wrong error %r' % e)
        mon.hit('unknown-model')
    # ---- gaussian density
    xs = np.array(case['pct'][:3]) / 25. - 2.
    mu, sg = xs[0] / 3., .2 + abs(xs[-1])
    with sut.code('gaussian'):
        g0 = U.gaussian(xs)
        g1 = U.gaussian(xs, mu=mu, sigma=sg)
    mon.close(g0, np.exp(-.5 * xs ** 2) / np.sqrt(2 * np.pi), 1e-12,
              'density')
    mon.close(g1, np.exp(-.5 * ((xs - mu) / sg) ** 2)
              / (sg * np.sqrt(2 * np.pi)), 1e-12, 'density', scale=1 / sg)
    mon.hit('density', len(xs))
    # ---- horizon band
    a, band = np.array(case['ang']), case['band']
    if 'int' in case['shape']:
        a = np.round(a)
        mon.hit('whole-angles', int(((a > 0) & (a < band)).sum()))
        if band > 2 and len(a) % 2:
            band = int(band)
    if case['shape'] == 'float32':
        a = a.astype(np.float32)
        a = np.where(np.abs(a - band) < 1e-3, np.float32(band + 1), a)
    want = np.clip(a / band, 0., 1.) * 100.
    keep = a.copy()
    if case['shape'] == 'flat':
        with sut.code('horizon band'):
            got = U.calculate_horizon_band_shading(a, band)
    elif case['shape'] == '2d':
        with sut.code('horizon band'):
            got = np.asarray(U.calculate_horizon_band_shading(
                a.reshape(2, -1), band))
        mon.ok(got.shape == (2, len(a) // 2), 'band-shape', str(got.shape))
        got = got.ravel()
    elif case['shape'] == 'series':
        import pandas as pd
        with sut.code('horizon band'):
            got = np.asarray(U.calculate_horizon_band_shading(
                pd.Series(a, index=np.arange(len(a)) + 7), band))
    elif case['shape'] in ('int', 'int32'):
        with sut.code('horizon band'):
            got = np.asarray(U.calculate_horizon_band_shading(
                a.astype(np.int32 if case['shape'] == 'int32' else int),
                band))
    elif case['shape'] == 'float32':
        with sut.code('horizon band'):
            got = np.asarray(U.calculate_horizon_band_shading(a, band), float)
    else:
        with sut.code('horizon band'):
            got = np.array([float(U.calculate_horizon_band_shading(
                int(x) if case['shape'] == 'int-scalar' else x, band))
                for x in a])
    mon.close(got, want, 1e-5 if case['shape'] == 'float32' else 1e-12,
              'horizon-band', case['shape'], scale=100.)
    mon.ok((a == keep).all(), 'band-inputs-kept', 'input array modified')
    mon.hit('band', len(a))
    for x in a:
        mon.sig('band', case['shape'], int(np.clip(x / band, -1, 2) * 5))
    _neighbor(case, mon)
    if int(case['pct'][0] * 7) % 8 == 0:
        _end_to_end(case, mon)


def _neighbor(case, mon):
    """Share of the disk that a neighboring row hides from a surface (a step
    of the model that has no public name: judged where it is there)."""
    from .. import sut
    rng = np.random.default_rng(int(abs(case['ang'][0]) * 1e6) % 2 ** 31)
    size = float(rng.uniform(2., 40.))
    kind = str(rng.choice(['uniform_disk', 'gaussian']))
    with sut.code('geometry of two rows'):
        from pvfactors.irradiance import HybridPerezOrdered
        from pvfactors.geometry.base import PVSurface
        from pvfactors.geometry.pvrow import PVRow
        model = HybridPerezOrdered(circumsolar_angle=size,
                                   circumsolar_model=kind)
        fn = getattr(model, '_calculate_circumsolar_shading_pct', None)
        if fn is None:
            return
        side = float(rng.choice([-1., 1.]))
        x, y = rng.uniform(-3, 3, 2)
        u = rng.uniform(-.5, .5, 2)
        surf = PVSurface([(x - u[0], y - u[1]), (x + u[0], y + u[1])])
        el = float(rng.uniform(3., 80.))
        d = float(rng.uniform(1.5, 6.))
        top = (x + side * d, y + d * np.tan(np.radians(el)))
        low = (top[0] + float(rng.uniform(-.4, .4)), top[1] - .7)
        ends = [top, low] if rng.random() < .5 else [low, top]
        far = [(x + side * 30., 0.), (x + side * 31., 50.)]
        rows = [PVRow.from_linestring_coords(e) for e in (far, ends, far)]
    sun = float(np.clip(el + rng.uniform(-.8, .8) * size, 1., 89.))
    v = [side * np.cos(np.radians(sun)), np.sin(np.radians(sun))]
    r = float(rng.uniform(.2, 3.))
    try:
        got = fn(surf, 1, rows, [r * v[0], r * v[1]])
        none = fn(surf, None, rows, v)
    except TypeError:
        return
    except Exception as e:
        mon.fail('neighbor', 'raised %r' % e)
        return
    p = (el - sun + size / 2.) / size * 100.
    want = _disk(p) if kind == 'uniform_disk' else _gauss(p)
    mon.close(got, want, 1e-5, 'neighbor', kind, scale=100.)
    mon.close(none, 0., 0., 'no-neighbor', 'without neighbor')
    mon.hit('neighbor-partial', 0. < p < 100.)


def _end_to_end(case, mon):
    """The band seen by a back surface at mid height shrinks with the band
    angle exactly as the shading function says."""
    from .. import sut
    w, gcr, tilt, h = 2., .5, 40., 2.
    with sut.code('simulating the horizon band'):
        from pvfactors.irradiance import HybridPerezOrdered
        from pvfactors.geometry import OrderedPVArray
        arr = OrderedPVArray.init_from_dict(
            {'n_pvrows': 3, 'pvrow_height': h, 'pvrow_width': w, 'gcr': gcr,
             'axis_azimuth': 0.})
        arr.fit(np.array([40.]), np.array([90.]), np.array([tilt]),
                np.array([90.]))
        irr = HybridPerezOrdered(horizon_band_angle=case['band'])
        import pandas as pd
        irr.fit(pd.DatetimeIndex(['2019-06-01 12:00']), np.array([500.]),
                np.array([100.]), np.array([40.]), np.array([90.]),
                np.array([tilt]), np.array([90.]), .2)
        irr.transform(arr)
        full = float(arr.ts_pvrows[1].front.get_param_weighted('horizon')[0])
        got = float(arr.ts_pvrows[1].back.get_param_weighted('horizon')[0])
    dy = .5 * w * np.sin(np.radians(tilt))
    dx = w / gcr + .5 * w * np.cos(np.radians(tilt))
    if abs(full) > 1e-9:
        el = np.degrees(np.arctan2(dy, dx))
        mon.close(got / full, 1. - min(1., el / case['band']), 1e-9,
                  'band-end-to-end', 'band %r' % case['band'])
        mon.hit('end-to-end')
