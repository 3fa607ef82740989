"""Driving the code under test (pvfactors, imported from the repository).

Only the public surface is used: engine, PV array, irradiance models, view
factor calculator, runner and report classes. Exceptions raised from inside
pvfactors on inputs of the documented domain are converted into CodeError, so
that they are judged (a violation), and never mixed up with harness errors."""
import contextlib
import os
import sys
import warnings

import numpy as np
import pandas as pd

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

import pvfactors                                         # noqa: E402
from pvfactors.engine import PVEngine                    # noqa: E402
from pvfactors.geometry import OrderedPVArray            # noqa: E402
from pvfactors.irradiance import (                       # noqa: E402
    HybridPerezOrdered, IsotropicOrdered)
from pvfactors.viewfactors import VFCalculator           # noqa: E402
from .scenario import BASE_TS, make_faoi, sandia               # noqa: E402

warnings.filterwarnings('ignore')
np.seterr(all='ignore')
import logging                                           # noqa: E402
logging.disable(logging.CRITICAL)


def _in_repo():
    return os.path.abspath(pvfactors.__file__).startswith(
        os.path.abspath(REPO) + os.sep)


assert _in_repo(), 'pvfactors not imported from %s' % REPO


class CodeError(Exception):
    """The code under test raised on an input of the documented domain."""


@contextlib.contextmanager
def code(what='call'):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    except CodeError:
        raise
    except (Exception, AssertionError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if 'pvfactors' in f.filename]
        loc = ('%s:%d' % (os.path.basename(where[-1].filename),
                          where[-1].lineno) if where else '?')
        raise CodeError('%s raised %s: %s (at %s)' % (
            what, type(e).__name__, str(e)[:200], loc))


class Inputs(object):
    """Numpy inputs of a scenario (fresh arrays at each call)."""

    def __init__(self, scn):
        t = scn['t']
        self.n = len(t['zen'])
        f = (lambda k: np.array(t[k], dtype=float))
        self.zen, self.azi, self.tilt, self.saz = (
            f('zen'), f('azi'), f('tilt'), f('saz'))
        self.dni, self.dhi, self.alb = f('dni'), f('dhi'), f('alb')
        self.ghi = f('ghi') if 'ghi' in t else None
        self.ts = (pd.Timestamp(BASE_TS)
                   + pd.to_timedelta(np.array(t['ts_min']), unit='min'))

    def fit_args(self):
        return (self.ts, self.dni, self.dhi, self.zen, self.azi, self.tilt,
                self.saz, self.alb)


class RaisedArray(OrderedPVArray):
    """The documented default of the height of the ground, replaced."""
    y_ground = None


def array_class(arr):
    if not arr.get('y_ground'):
        return OrderedPVArray
    return type('RaisedArray', (RaisedArray,), {'y_ground': arr['y_ground']})


def array_params(arr):
    p = {k: v for k, v in arr.items() if k not in ('cut', 'y_ground')}
    if 'cut' in arr:
        p['cut'] = {int(k): dict(v) for k, v in arr['cut'].items()}
    return p


def code_faoi(*specs):
    """The functions given to the code (all made before any is used)."""
    from pvfactors.viewfactors.aoimethods import faoi_fn_from_pvlib_sandia
    return [faoi_fn_from_pvlib_sandia(sandia(s['k'])[0])
            if s['kind'] == 'sandia' else make_faoi(s) for s in specs]


def irr_kwargs(irr):
    kw = {k: v for k, v in irr.items()
          if k not in ('model', 'faoi_front', 'faoi_back')}
    if irr.get('faoi_front') is not None:
        kw['faoi_fn_front'], kw['faoi_fn_back'] = code_faoi(
            irr['faoi_front'], irr['faoi_back'])
    return kw


def irr_class(irr):
    return (HybridPerezOrdered if irr['model'] == 'hybrid'
            else IsotropicOrdered)


def vf_kwargs(vf):
    if not vf or vf.get('faoi_front') is None:
        return {}
    front, back = code_faoi(vf['faoi_front'], vf['faoi_back'])
    return {'faoi_fn_front': front, 'faoi_fn_back': back,
            'n_aoi_integral_sections': int(vf['n_sections'])}


def build_engine(scn, **kw):
    arr = array_class(scn['arr']).init_from_dict(array_params(scn['arr']))
    irr = irr_class(scn['irr'])(**irr_kwargs(scn['irr']))
    vf = VFCalculator(**vf_kwargs(scn.get('vf')))
    return PVEngine(arr, vf_calculator=vf, irradiance_model=irr, **kw)


def earlier_inputs(scn, kind):
    """Inputs of a series simulated before the judged one, made from it: the
    whole of it is different, or only a part of it."""
    t = scn['t']
    n = len(t['zen'])
    what, size = kind.split('-')[:2]
    idx = {'same': list(range(n)), 'rev': list(range(n))[::-1], 'one': [n - 1],
           'long': list(range(n)) * 2 + [0]}[size]
    old = {k: [v[i] for i in idx] for k, v in t.items()}
    m = len(idx)
    if what in ('all', 'sun'):
        old['zen'] = [88.5 - .9 * z if z < 88.5 else 8. for z in old['zen']]
        old['azi'] = [(a + 137.3) % 360. for a in old['azi']]
    if what in ('all', 'rot'):
        old['tilt'] = [(1.7 * x + 11.) % 170. for x in old['tilt']]
        old['saz'] = [(a + 180. * (i % 2)) % 360.
                      for i, a in enumerate(old['saz'])]
    if what in ('all', 'light'):
        old['dni'], old['dhi'] = ([1.5 * x + 10. for x in old['dhi']],
                                  [.2 * x + 20. for x in old['dni']])
        if old.pop('ghi', None) is None:
            old['ghi'] = [300. + 10. * i for i in range(m)]
    if what in ('all', 'alb'):
        old['alb'] = [.95 - .9 * x for x in old['alb']]
    if what in ('all', 'date'):
        old['ts_min'] = [(x + 260000) % 525600 for x in old['ts_min']]
    return Inputs(dict(scn, t=old))


def before(eng, scn):
    """What the scenario says the engine did before the judged fit."""
    kind = scn.get('pre')
    if not kind:
        return
    inp = earlier_inputs(scn, kind)
    eng.fit(*inp.fit_args(), ghi=inp.ghi)
    do = kind.split('-')[2]
    if do == 'full':
        eng.run_full_mode()
    elif do == 'fast':
        # (not the segment chosen at creation: the last row may lack it)
        seg = None if eng.fast_mode_segment_index is None else 0
        eng.run_fast_mode(pvrow_index=scn['arr']['n_pvrows'] - 1,
                          segment_index=seg)
    elif do == 'read':
        for r in eng.pvarray.ts_pvrows:
            r.at(0)
        eng.pvarray.ts_ground.at(inp.n - 1)


def fit_engine(scn, **kw):
    with code('engine.fit'):
        eng = build_engine(scn, **kw)
        before(eng, scn)
        inp = Inputs(scn)
        eng.fit(*inp.fit_args(), ghi=inp.ghi)
    return eng


def run_full(scn):
    eng = fit_engine(scn)
    with code('engine.run_full_mode'):
        eng.run_full_mode()
    return eng


def fit_array(scn):
    with code('pvarray.fit'):
        arr = array_class(scn['arr']).init_from_dict(array_params(scn['arr']))
        if scn.get('pre'):
            old = earlier_inputs(scn, scn['pre'])
            arr.fit(old.zen, old.azi, old.tilt, old.saz)
        inp = Inputs(scn)
        arr.fit(inp.zen, inp.azi, inp.tilt, inp.saz)
    return arr


VF_HOW = ('fresh', 'used', 'engine', 'aoi')


def vf_of(scn, how):
    """A fitted array and its view factor matrix, from a new calculator, one
    that was used for another array before, a full mode simulation, or a
    calculator with angle-of-incidence functions."""
    if how == 'engine':
        eng = run_full(scn)
        return eng.pvarray, np.asarray(eng.pvarray.ts_vf_matrix, float)
    arr = fit_array(scn)
    n = len(scn['t']['zen'])
    with code('build_ts_vf_matrix'):
        if how == 'aoi':
            f = make_faoi({'kind': 'power', 'c': .9, 'k': 4.})
            calc = VFCalculator(faoi_fn_front=f, faoi_fn_back=f,
                                n_aoi_integral_sections=30)
        else:
            calc = VFCalculator()
        if how == 'used':
            other = dict(scn, pre=None, arr=dict(
                scn['arr'], n_pvrows=scn['arr']['n_pvrows'] % 3 + 1,
                cut={'0': {'front': 2, 'back': 3}}))
            old = fit_array(dict(other, t={k: v[:1] * (n % 3 + 1)
                                           for k, v in scn['t'].items()}))
            calc.fit(n % 3 + 1)
            calc.build_ts_vf_matrix(old)
        calc.fit(n)
        F = np.asarray(calc.build_ts_vf_matrix(arr), float)
    return arr, F


class Surf(object):
    """A timeseries surface together with where it sits in the array."""

    __slots__ = ('ts', 'kind', 'row', 'side', 'seg', 'shaded', 'pos')

    def __init__(self, ts, kind, row, side, seg, shaded, pos):
        self.ts, self.kind, self.row, self.side = ts, kind, row, side
        self.seg, self.shaded, self.pos = seg, shaded, pos

    @property
    def label(self):
        if self.kind == 'g':
            return 'ground %s #%d' % (
                'shaded' if self.shaded else 'illum', self.pos)
        return 'row %d %s seg %d %s' % (
            self.row, self.side, self.seg,
            'shaded' if self.shaded else 'illum')


def all_surfs(arr):
    """All surfaces, located by walking the public structure; ``pos`` is the
    position in ``pvarray.all_ts_surfaces`` (the order of result vectors)."""
    order = {id(s): k for k, s in enumerate(arr.all_ts_surfaces)}
    out = []
    for shaded, col in ((True, arr.ts_ground.shaded),
                        (False, arr.ts_ground.illum)):
        for s in col.list_ts_surfaces:
            out.append(Surf(s, 'g', None, None, None, shaded, order[id(s)]))
    for r, row in enumerate(arr.ts_pvrows):
        for side_name, side in (('front', row.front), ('back', row.back)):
            for k, seg in enumerate(side.list_segments):
                for shaded, col in ((False, seg.illum), (True, seg.shaded)):
                    for s in col.list_ts_surfaces:
                        out.append(Surf(s, 'r', r, side_name, k, shaded,
                                        order[id(s)]))
    out.sort(key=lambda s: s.pos)
    return out


def coords(ts_surface, n):
    """(n, 2, 2) coordinates [timestep, end, xy] of a timeseries surface."""
    c = ts_surface.coords
    return np.stack([
        np.stack([np.broadcast_to(c.b1.x, n), np.broadcast_to(c.b1.y, n)], 1),
        np.stack([np.broadcast_to(c.b2.x, n), np.broadcast_to(c.b2.y, n)], 1)
    ], 1).astype(float)


def seg_len(c):
    return np.hypot(c[..., 1, 0] - c[..., 0, 0], c[..., 1, 1] - c[..., 0, 1])
