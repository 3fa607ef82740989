"""P11: fast mode is one bounce from known surroundings, with true views."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P11'
RULE = ('random and directed fast mode runs, for rows and segments selected '
        'at construction or at run time, through the engine or the '
        'functional runner; non-trivial per distinct situation of a judged '
        'timestep, row position and selection')
COUNT = {'quick': 1680, 'thorough': 6000}
REQUIRED = {'step': 500, 'flat': 10, 'over': 30, 'shade_front': 40,
            'shade_back': 10, 'left': 100, 'cut': 100, 'segment': 50, 'segment-zero-override': 15,
            'segment-override': 10,
            'index-zero': 30, 'override': 50, 'judged': 1000,
            'last-row': 50, 'each-shadow': 300, 'edge-row-out': 50}
shrink = core.shrink_steps
TOL = 2e-6
KEYS = ('to_gnd_shaded', 'to_gnd_illum', 'to_pvrow_shaded', 'to_pvrow_illum',
        'to_sky')


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        R = c['scn']['arr']['n_pvrows']
        for row in sorted({0, i % R, R - 1}):
            out.append(dict(c, row=row, seg=None, how=i % 3, decoy=i))
    return out


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, raised=True, max_zenith=89.5, long_every=0)
    a = c['scn']['arr']
    R = a['n_pvrows']
    c['row'] = int(rng.choice([0, R - 1, rng.integers(0, R)]))
    nb = int(a.get('cut', {}).get(str(c['row']), {}).get('back', 1))
    c['seg'] = int(rng.integers(0, nb)) if rng.random() < .4 else None
    if nb > 1 and rng.random() < .6:
        c['seg'] = int(rng.integers(0, nb)) if rng.random() < .5 else 0
    c['how'] = int(rng.integers(0, 3))
    c['decoy'] = int(rng.integers(0, 100))
    return c


class Grab(object):
    def __call__(self, pvarray):
        self.arr = pvarray
        return ('report', id(pvarray))


def drive(case, mon):
    """Three documented ways to select the row and segment."""
    from pvfactors.run import run_timeseries_engine
    scn, row, seg, how = case['scn'], case['row'], case['seg'], case['how']
    R = scn['arr']['n_pvrows']
    grab = Grab()
    if how == 0:          # at construction
        eng = sut.fit_engine(scn, fast_mode_pvrow_index=row,
                             fast_mode_segment_index=seg)
        with sut.code('run_fast_mode'):
            rep = eng.run_fast_mode(grab)
    elif how == 1:        # at run time, overriding what was constructed
        decoy = case['decoy'] % R
        dseg = None
        if seg is not None:
            nb = int(scn['arr'].get('cut', {}).get(str(row), {}).get(
                'back', 1))
            dseg = case['decoy'] % nb
            if dseg == seg:
                dseg = (seg + 1) % nb
            mon.hit('segment-zero-override', seg == 0 and dseg != 0)
            mon.hit('segment-override', seg != 0)
        eng = sut.fit_engine(scn, fast_mode_pvrow_index=decoy,
                             fast_mode_segment_index=dseg)
        with sut.code('run_fast_mode'):
            rep = eng.run_fast_mode(fn_build_report=grab, pvrow_index=row,
                                    segment_index=seg)
        mon.hit('override', decoy != row)
    else:
        inp = sut.Inputs(scn)
        with sut.code('run_timeseries_engine'):
            rep = run_timeseries_engine(
                grab, sut.array_params(scn['arr']), *inp.fit_args(),
                cls_pvarray=sut.array_class(scn['arr']),
                cls_irradiance=sut.irr_class(scn['irr']),
                irradiance_model_params=sut.irr_kwargs(scn['irr']),
                vf_calculator_params=sut.vf_kwargs(scn.get('vf')),
                fast_mode_pvrow_index=row, fast_mode_segment_index=seg,
                ghi=inp.ghi)
        eng = None
    mon.ok(rep == ('report', id(grab.arr)), 'report',
           'the report of the user function is not returned')
    return grab.arr, eng


def judge(case, mon):
    scn, row, seg = case['scn'], case['row'], case['seg']
    arr, _ = drive(case, mon)
    v = view.View(scn, arr)
    n = v.n
    R = scn['arr']['n_pvrows']
    mon.hit('segment', n if seg is not None else 0)
    mon.hit('index-zero', n if row == 0 else 0)
    mon.hit('last-row', n if row == R - 1 else 0)
    for s in v.surfs:
        if s.kind != 'r' or s.side != 'back' or s.row != row:
            continue
        try:
            q = s.ts.get_param('qinc')
        except KeyError:
            q = None
        if seg is not None and s.seg != seg:
            mon.ok(q is None, 'selected-only',
                   'a segment that was not selected has results: ' + s.label)
            continue
        with sut.code('fast mode results'):
            vf = s.ts.get_param('view_factors')
            got = {k: np.broadcast_to(np.asarray(s.ts.get_param(k), float), n)
                   for k in ('qinc', 'isotropic', 'reflection', 'sky_term',
                             'reflection_gnd_shaded', 'reflection_gnd_illum',
                             'reflection_pvrow_shaded',
                             'reflection_pvrow_illum')}
            gvf = {k: np.broadcast_to(np.asarray(vf[k], float), n)
                   for k in KEYS + ('to_gnd_total', 'to_pvrow_total')}
            each = np.asarray(vf['to_each_gnd_shadow'], float)
        if not mon.ok(each.shape == (R, n), 'view-each-shadow',
                      'shape %s of the views of each shadow' % (each.shape,)):
            each = np.full((R, n), np.nan)
        for i in range(n):
            st = v.step(i)
            if not st.usable:
                continue
            pat = [p for p in st.pats if p.pos == s.pos]
            if not pat:
                continue
            tag = st.classes(mon) + ('/r0' if row == 0 else '') + (
                '/rN' if row == R - 1 else '') + ('/s' if seg is not None
                                                  else '')
            mon.sig(scn['irr']['model'], tag)
            mon.hit('judged')
            g = st.geo
            p = pat[0]
            out = ref.fast_vf(g, st.pats, p)
            mon.hit('edge-row-out', (row == 0 and g.nrm[0] > 0)
                    or (row == R - 1 and g.nrm[0] < 0))
            for k in KEYS:
                mon.close(gvf[k][i], out[k], TOL, 'view:' + k, s.label,
                          step=i)
            mon.close(sum(gvf[k][i] for k in KEYS), 1., 1e-9, 'view-closure',
                      s.label, step=i)
            mon.close(gvf['to_gnd_total'][i],
                      gvf['to_gnd_shaded'][i] + gvf['to_gnd_illum'][i], 1e-9,
                      'view-ground-total', s.label, step=i)
            mon.close(gvf['to_pvrow_total'][i],
                      gvf['to_pvrow_shaded'][i] + gvf['to_pvrow_illum'][i],
                      1e-9, 'view-rows-total', s.label, step=i)
            mon.close(each[:, i].sum(), gvf['to_gnd_shaded'][i], 1e-9,
                      'view-each-shadow', s.label, step=i)
            if out['to_each_gnd_shadow'] is not None:
                mon.hit('each-shadow')
                mon.close(each[:, i], np.array(out['to_each_gnd_shadow']),
                          TOL, 'view-each-shadow', s.label, step=i)
            sc = v.scale[i]
            want = ref.fast_terms(st, p, out)
            for k in want:
                mon.close(got[k][i], want[k], TOL, 'fast:' + k, s.label,
                          scale=sc, step=i)
