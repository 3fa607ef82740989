"""Workload generator: scenarios are plain JSON-able dicts, so that every
execution a monitor judges can be replayed exactly."""
import numpy as np

BASE_TS = '2019-01-01'


def rng_for(*key):
    """Deterministic generator from a tuple of ints / strings."""
    ints = []
    for k in key:
        if isinstance(k, str):
            ints.append(int.from_bytes(k.encode(), 'little') % (2 ** 63))
        else:
            ints.append(int(k))
    return np.random.default_rng(ints)


def _r(x, nd=6):
    # (more digits than anyone would round to)
    return round(float(x), nd + 6)


def gen_array(rng, n_rows=None, cuts=True, max_extent=45., max_cut=4,
              min_rows=1, max_rows=5):
    """PV array parameters: always above ground, well inside +-100 m."""
    n = int(n_rows if n_rows is not None
            else rng.integers(min_rows, max_rows + 1))
    width = _r(rng.choice([rng.uniform(.4, 4.), 1., 2.]), 4)
    gcr = _r(rng.choice([rng.uniform(.12, .95), .2, .4, rng.uniform(.3, .6)]),
             4)
    if (n - 1) * width / gcr > max_extent:
        gcr = _r(min(.97, (n - 1) * width / max_extent + 1e-3), 4)
    clearance = _r(rng.choice([rng.uniform(.05, 3.), rng.uniform(.2, 1.)]), 4)
    tail = rng.random()
    if tail < .04:          # far apart
        gcr = _r(rng.uniform(.03, .12), 4)
        width = _r(min(width, max_extent * gcr / max(n - 1, 1)), 4)
    elif tail < .08:        # large structures
        width = _r(rng.uniform(4., 14.), 4)
        gcr = _r(rng.uniform(.3, .8), 4)
        k = max_extent * gcr / max(n - 1, 1)
        width = _r(min(width, max(k, .4)), 4)
    elif tail < .11:        # models of arrays
        width = _r(rng.uniform(.08, .4), 4)
        clearance = _r(rng.uniform(.02, .4), 4)
    elif tail < .14:        # canopies
        clearance = _r(rng.uniform(3., 11.), 4)
    height = _r(width / 2. + clearance, 5)
    axis = float(rng.choice([0., 0., 90., 180., 270.,
                             _r(rng.uniform(0., 360.), 3)]))
    arr = {'n_pvrows': n, 'pvrow_height': height, 'pvrow_width': width,
           'axis_azimuth': axis, 'gcr': gcr}
    if cuts and rng.random() < .6:
        cut = {}
        for i in range(n):
            if rng.random() < .7:
                d = {}
                if rng.random() < .6:
                    d['front'] = int(rng.integers(1, max_cut + 1))
                if rng.random() < .6:
                    d['back'] = int(rng.integers(1, max_cut + 1))
                cut[str(i)] = d
        if cut:
            arr['cut'] = cut
    return arr


def slight(rng, arr, axis, right, max_zenith):
    """Rows that are nearly flat, and a sun so low that they still shade each
    other, from either side."""
    gcr = min(arr['gcr'], .98)
    tilt = max(10. ** rng.uniform(-2., .5), .05 * (90. - max_zenith))
    # elevation above which there is no shading, and a part of it
    low = tilt * gcr / (1. - gcr)
    el = low * rng.uniform(.02, 1.05)
    side = 90. if right else -90.
    if rng.random() < .4:             # the sun behind, above the plane
        side, el = -side, tilt + (el if rng.random() < .5 else -el * .4)
    zen = float(np.clip(90. - el, 0., max_zenith))
    return zen, axis + side + rng.uniform(-25., 25.) * rng.choice([0., 1.]), \
        tilt


def gen_times(rng, arr, n_steps, styles=None, max_zenith=89.5, max_tilt=180.,
              allow_flat=True):
    """Per-timestep sun, orientation and irradiance inputs. Every timestep
    draws its own style, so that vectorised branches are mixed."""
    axis = arr['axis_azimuth']
    styles = styles or ['random', 'random', 'tracker', 'low_sun', 'steep',
                        'back_sun', 'flat', 'edge', 'fixed', 'over']
    out = {k: [] for k in ('zen', 'azi', 'tilt', 'saz', 'dni', 'dhi', 'alb',
                           'ts_min', 'style')}
    fixed_tilt = rng.uniform(5, 50)
    fixed_right = rng.random() < .5
    for _ in range(n_steps):
        st = str(rng.choice(styles))
        zen = rng.uniform(0., min(85., max_zenith))
        azi = rng.uniform(0., 360.)
        right = rng.random() < .5     # panel faces +x (axis + 90)
        tilt = rng.uniform(0.5, min(60., max_tilt))
        if st == 'tracker':
            zen = rng.uniform(5., min(88., max_zenith))
            # sun in the half plane the panel faces, panel facing the sun
            azi = axis + (90. if right else -90.) + rng.uniform(-60, 60)
            sx = np.sin(np.radians(zen)) * np.cos(np.radians(azi - axis - 90))
            tilt = min(abs(np.degrees(np.arctan2(sx, np.cos(np.radians(zen))))),
                       max_tilt) * rng.uniform(.6, 1.)
        elif st == 'low_sun':
            zen = rng.uniform(min(70., max_zenith - 5), max_zenith)
            azi = axis + (90. if right else -90.) + rng.uniform(-30, 30)
            tilt = rng.uniform(10., min(85., max_tilt))
        elif st == 'steep':
            tilt = rng.uniform(min(60., max_tilt / 2), min(89., max_tilt))
        elif st == 'over':
            tilt = rng.uniform(min(90.5, max_tilt), min(float(
                rng.choice([165., 165., 179.8])), max_tilt))
        elif st == 'back_sun':
            zen = rng.uniform(40., max_zenith)
            azi = axis + (-90. if right else 90.) + rng.uniform(-40, 40)
            tilt = rng.uniform(20., min(100., max_tilt))
        elif st == 'flat':
            tilt = 0. if allow_flat else 1.
            if allow_flat and max_tilt >= 180. and rng.random() < .25:
                tilt = 180.
        elif st == 'edge':
            k = int(rng.integers(0, 7))
            if k == 0:
                tilt = 90. if max_tilt >= 90. else max_tilt
            elif k == 1:
                zen = 0.
            elif k == 2:
                azi = axis + float(rng.choice([0., 180., 90., -90.]))
            elif k == 3:
                tilt = float(rng.choice([.01, .3, 1.]))
                if rng.random() < .5:
                    zen, azi, tilt = slight(rng, arr, axis, right, max_zenith)
            elif k == 4:
                zen = rng.uniform(85., max_zenith) if max_zenith > 85 else 84.
            elif k == 5:
                zen, azi = rng.uniform(60, min(88, max_zenith)), \
                    axis + float(rng.choice([90., -90.]))
                tilt = rng.uniform(30., min(80., max_tilt))
            else:
                tilt = min(max_tilt, float(rng.choice([120., 45., 60.])))
        elif st == 'slight':
            zen, azi, tilt = slight(rng, arr, axis, right, max_zenith)
        elif st == 'fixed':
            tilt, right = min(fixed_tilt, max_tilt), fixed_right
        saz = axis + (90. if right else -90.)
        wrap = rng.random()
        if wrap < .85:
            saz, azi = saz % 360., azi % 360.
        tilt = min(tilt, max_tilt)
        dk = rng.random()
        dni = 0. if dk < .06 else rng.uniform(20., 1000.)
        dhi = 0. if (dk > .97 and dni > 0) else rng.uniform(5., 400.)
        if .9 < dk < .93:       # bright clouds, dim days
            dni, dhi = rng.uniform(900., 1400.), rng.uniform(400., 900.)
        elif .93 < dk < .95:
            dni, dhi = rng.uniform(0., 5.), rng.uniform(.5, 20.)
        out['zen'].append(_r(zen))
        out['azi'].append(_r(azi))
        out['tilt'].append(_r(tilt))
        out['saz'].append(_r(saz))
        out['dni'].append(_r(dni, 4))
        out['dhi'].append(_r(dhi, 4))
        out['alb'].append(_r(rng.uniform(.05, .9), 4))
        day = rng.random()
        if day < .75:
            k = rng.integers(0, 365 * 24 * 60)
        elif day < .95:         # of other years
            k = rng.integers(-12 * 365 * 1440, 12 * 365 * 1440)
        else:                   # end of 2020, a leap year
            k = (365 + 366) * 1440 - rng.integers(1, 1440)
        out['ts_min'].append(int(k))
        out['style'].append(st)
    if rng.random() < .25 and n_steps > 2:     # duplicated timestamps happen
        out['ts_min'][1] = out['ts_min'][0]
        out['ts_min'][-1] = out['ts_min'][0]
    if rng.random() < .3:
        out['alb'] = [out['alb'][0]] * n_steps
    if rng.random() < .1:
        out['alb'] = [_r(rng.uniform(.9, .99), 4) for _ in range(n_steps)]
    elif rng.random() < .06:
        out['alb'] = [_r(rng.uniform(.002, .05), 4) for _ in range(n_steps)]
    if rng.random() < .04:      # a ground that reflects nothing, at times
        out['alb'] = [0. if rng.random() < .5 else x for x in out['alb']]
    return out


def slow(rng, t, n, max_zenith=89.):
    """A series of n timesteps in which little changes from one to the next:
    some inputs drift slowly, the others stay as they are."""
    j = int(rng.integers(0, len(t['zen'])))
    names = ['zen', 'azi', 'tilt', 'dni', 'dhi', 'alb']
    pick = [k for k in names if rng.random() < .5] or ['zen']
    rate = 10. ** rng.uniform(-6., -1.5)
    out = {}
    for k, x in t.items():
        if k == 'ts_min':
            step = int(rng.choice([0, 1, 5]))
            out[k] = [x[j] + step * i for i in range(n)]
            continue
        out[k] = [x[j]] * n
        if k not in pick:
            continue
        unit = {'zen': -20., 'azi': 20., 'tilt': 20., 'dni': 500.,
                'dhi': 200., 'alb': .5}[k] * float(rng.choice([1., .3]))
        v = [x[j] + unit * rate * i for i in range(n)]
        lo, hi = {'zen': (0., max_zenith), 'azi': (-720., 720.),
                  'tilt': (x[j], x[j]) if x[j] in (0., 180.) else
                  ((.5, 89.5) if .5 < x[j] < 89.5 else (x[j], x[j])),
                  'dni': (x[j], 2500.), 'dhi': (x[j], 1500.),
                  'alb': (.002, .99)}[k]
        if all(lo <= y <= hi for y in v):
            out[k] = [round(y, 9) for y in v]
    return out


FAOI_KINDS = ['const', 'power', 'sapmlike', 'linear']


def gen_faoi(rng):
    kind = str(rng.choice(FAOI_KINDS))
    return {'kind': kind, 'c': _r(rng.uniform(.6, 1.), 4),
            'k': _r(rng.uniform(2., 6.), 4), 'obj': bool(rng.random() < .4)}


class FaoiObj(object):
    def __init__(self, fn):
        self._fn = fn

    def faoi(self, angles):
        return self._fn(angles)


class FaoiFn(object):
    """Picklable faoi function: angle from the surface horizontal, 0..180."""

    def __init__(self, kind, c, k):
        self.kind, self.c, self.k = kind, c, k

    def __call__(self, angles):
        a = np.asarray(angles, dtype=float)
        cos_inc = np.abs(np.sin(np.radians(a)))     # cos of incidence
        if self.kind == 'const':
            return self.c * np.ones_like(a)
        if self.kind == 'power':
            return self.c * (1. - (1. - cos_inc) ** self.k)
        if self.kind == 'sapmlike':
            inc = np.degrees(np.arccos(np.clip(cos_inc, 0, 1)))
            return self.c * np.clip(1. - (inc / 90.) ** self.k, 0., 1.)
        if self.kind == 'sandia':       # (k: number of a module)
            inc = np.abs(90. - a)
            return np.clip(sum(b * inc ** j for j, b in enumerate(
                sandia(self.k)[1])), 0., 1.)
        if self.kind == 'oneside':      # not symmetric
            return self.c * (.3 + .7 * a / 180.) * cos_inc ** .2
        return self.c * np.minimum(a, 180. - a) / 90.


_DB = []


def module_number(rng):
    """Of a module of pvlib, other than the concentrator, whose function is
    narrower than any section of the integrals."""
    k = int(rng.integers(0, 500))
    return k if k != 114 else 113


def sandia(k):
    """Name and angle-of-incidence polynomial of a module of pvlib."""
    if not _DB:
        from pvlib import pvsystem
        _DB.append(pvsystem.retrieve_sam('SandiaMod'))
    name = _DB[0].columns[int(k) % len(_DB[0].columns)]
    return name, [_DB[0][name]['B%d' % j] for j in range(6)]


def make_faoi(spec):
    if spec is None:
        return None
    f = FaoiFn(spec['kind'], spec['c'], spec['k'])
    return FaoiObj(f) if spec.get('obj') else f


def gen_irr(rng, model=None, faoi=False, trans=True):
    model = model or ('hybrid' if rng.random() < .65 else 'isotropic')
    p = {'model': model, 'rho_front': _r(rng.uniform(.005, .3), 4),
         'rho_back': _r(rng.uniform(.005, .4), 4)}
    if rng.random() < .12:      # mirrors: many orders of reflection matter
        p['rho_front'] = _r(rng.uniform(.5, .96), 4)
        p['rho_back'] = _r(rng.uniform(.5, .96), 4)
    elif rng.random() < .08:    # black modules: badly scaled equations
        p['rho_front'] = _r(10. ** rng.uniform(-4.5, -2.), 7)
        p['rho_back'] = _r(10. ** rng.uniform(-4.5, -2.), 7)
    if rng.random() < .05:      # nothing is reflected at all
        for k in (['rho_front'], ['rho_back'], ['rho_front', 'rho_back'])[
                int(rng.integers(0, 3))]:
            p[k] = 0.
    if rng.random() < .3:
        p.pop('rho_front')
    if rng.random() < .3:
        p.pop('rho_back')
    if trans and rng.random() < .5:
        if rng.random() < .7:
            p['module_transparency'] = float(rng.choice(
                [_r(rng.uniform(0, .6), 4)] * 6 + [0., 1., .95]))
        if rng.random() < .7:
            p['module_spacing_ratio'] = float(rng.choice(
                [_r(rng.uniform(0, .5), 4)] * 6 + [0., .8, .99]))
    if model == 'hybrid' and rng.random() < .5:
        p['horizon_band_angle'] = _r(rng.choice(
            [rng.uniform(2., 40.), rng.uniform(2., 15.), .2, 1., 75., 90.],
            p=[.4, .4, .05, .05, .05, .05]), 3)
    if faoi:
        p['faoi_front'] = gen_faoi(rng)
        p['faoi_back'] = gen_faoi(rng)
    return p


def gen_scenario(rng, n_steps=(6, 16), **kw):
    akw = {k: kw[k] for k in ('n_rows', 'cuts', 'max_extent', 'max_cut',
                              'min_rows', 'max_rows') if k in kw}
    tkw = {k: kw[k] for k in ('styles', 'max_zenith', 'max_tilt',
                              'allow_flat') if k in kw}
    ikw = {k: kw[k] for k in ('model', 'faoi', 'trans') if k in kw}
    arr = gen_array(rng, **akw)
    n = int(rng.integers(n_steps[0], n_steps[1] + 1))
    scn = {'arr': arr, 't': gen_times(rng, arr, n, **tkw),
           'irr': gen_irr(rng, **ikw), 'vf': {}}
    if kw.get('faoi'):
        scn['vf'] = {'faoi_front': scn['irr']['faoi_front'],
                     'faoi_back': scn['irr']['faoi_back'],
                     'n_sections': int(kw.get('n_sections', 1800))}
        part = rng.random()     # the two uses of the functions are separate
        if part < .12:
            scn['vf'] = {}
        elif part < .24:
            scn['irr'].pop('faoi_front')
            scn['irr'].pop('faoi_back')
        elif part < .4:
            scn['vf'].update(faoi_front=gen_faoi(rng),
                             faoi_back=gen_faoi(rng))
    if kw.get('ghi', True) and rng.random() < .4:
        t = scn['t']
        f = rng.uniform(.8, 1.2, size=n)
        if f[0] < .84:      # the pyranometer is off, or was at first
            f[:n if f[0] < .82 else 1] = 0.
        scn['t']['ghi'] = [
            _r(f[i] * (t['dni'][i] * max(0., np.cos(np.radians(t['zen'][i])))
                       + t['dhi'][i]), 4) for i in range(n)]
    if rng.random() < .25:
        scn['pre'] = str(rng.choice(PRE))
    return scn


# what an engine may have done before the judged fit: which inputs were
# different, how long the series was, and what was run
PRE = ['all-same-full', 'all-long-fast', 'all-one-full', 'sun-same-full',
       'rot-rev-fast', 'light-same-fast', 'alb-same-full', 'date-rev-full',
       'sun-rev-read', 'all-same-fit', 'rot-same-full', 'all-rev-fast']


def subset(scn, idxs):
    """Scenario restricted / permuted to the given timesteps."""
    out = dict(scn)
    out['t'] = {k: [v[i] for i in idxs] for k, v in scn['t'].items()}
    return out
