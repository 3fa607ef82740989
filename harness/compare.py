"""Comparison of executions surface by surface."""
import numpy as np
from . import sut
from .ref import TINY

FULL = ['direct', 'rho', 'q0', 'qinc', 'isotropic', 'reflection', 'qabs',
        'total_perez', 'direct_absorbed']
HYB = ['circumsolar', 'horizon', 'circumsolar_absorbed', 'horizon_absorbed']
FAST = ['qinc', 'isotropic', 'reflection', 'reflection_gnd_shaded',
        'reflection_gnd_illum', 'reflection_pvrow_shaded',
        'reflection_pvrow_illum', 'sky_term']


def full_names(scn, absorbed=True):
    out = FULL + (HYB if scn['irr']['model'] == 'hybrid' else [])
    return out if absorbed else [x for x in out if not x.endswith('absorbed')
                                 and x != 'qabs']


class Result(object):
    """Everything a full run leaves on the surfaces, as arrays."""

    def __init__(self, arr, n, names, surfs=None):
        with sut.code('reading results'):
            self.surfs = surfs or sut.all_surfs(arr)
            self.C = np.stack([sut.coords(s.ts, n) for s in self.surfs])
            self.L = sut.seg_len(self.C)
            self.p = {}
            for k in names:
                self.p[k] = np.stack([_get(s.ts, k, n) for s in self.surfs])


def _get(ts, name, n):
    v = ts.get_param(name)
    if v is None:
        return np.full(n, np.nan)
    return np.array(np.broadcast_to(np.asarray(v, float), n))


def full_result(scn, engine=None, mode='full'):
    """Run full mode (fresh engine unless given) and collect."""
    eng = engine or sut.fit_engine(scn)
    with sut.code('run_full_mode'):
        eng.run_full_mode()
    return Result(eng.pvarray, len(scn['t']['zen']), full_names(scn))


def fast_result(scn, engine=None, row=0, segment=None):
    eng = engine or sut.fit_engine(scn)
    with sut.code('run_fast_mode'):
        eng.run_fast_mode(pvrow_index=row, segment_index=segment)
    surfs = [s for s in sut.all_surfs(eng.pvarray)
             if s.kind == 'r' and s.row == row and s.side == 'back'
             and (segment is None or s.seg == segment)]
    return Result(eng.pvarray, len(scn['t']['zen']), FAST, surfs)


def same(mon, a, b, ia, ib, tol, rule, msg, scale, skip=(), steps_ok=None,
         coords=True, **data):
    """Results a at steps ia equal results b at steps ib on every surface
    that is not a point. ``scale`` per step of a."""
    ia, ib = np.asarray(ia), np.asarray(ib)
    if not mon.ok(len(a.surfs) == len(b.surfs), rule + '-surfaces',
                  msg + ': different number of surfaces',
                  got=len(a.surfs), want=len(b.surfs), **data):
        return
    live = (a.L[:, ia] > TINY) & (b.L[:, ib] > TINY)
    if steps_ok is not None:
        live = live & np.asarray(steps_ok)[ia][None, :]
    if coords:
        mon.close(a.L[:, ia], b.L[:, ib], 1e-9, rule + '-geometry',
                  msg + ': surface lengths', **data)
        mon.close(a.C[:, ia][live], b.C[:, ib][live], 1e-9,
                  rule + '-geometry', msg + ': coordinates', **data)
    sc = np.broadcast_to(np.asarray(scale)[ia][None, :], live.shape)
    for k in a.p:
        if k in skip:
            continue
        s = 1. if k in ('rho',) else sc[live]
        mon.close(a.p[k][:, ia][live], b.p[k][:, ib][live], tol,
                  rule + ':' + k, msg, scale=s, **data)


def scale_of(scn):
    return np.abs(np.array(scn['t']['dni'])) \
        + np.abs(np.array(scn['t']['dhi'])) + 1.


def regular_steps(scn):
    from .ref import Sky
    out = []
    for i in range(len(scn['t']['zen'])):
        s = Sky(scn, i)
        out.append(s.regular and not s.grazing)
    return np.array(out)
