"""P20: the same data in another input form gives the same results."""
import numpy as np
import pandas as pd
from .. import cases, compare, core, sut
from ..scenario import subset

ID = 'P20'
RULE = ('random and directed series given as arrays, as pandas series with '
        'several kinds of index, as integers, as read-only or strided views, '
        'with timestamps in several containers, constant albedo as scalar or '
        'vector, and single timesteps as scalars; non-trivial per distinct '
        'form of each input, model and mode')
COUNT = {'quick': 270, 'thorough': 3000}
REQUIRED = {'series-time': 12, 'series-range': 12, 'series-odd': 10,
            'mixed': 12, 'int': 12, 'int-some': 12, 'readonly': 12, 'strided': 12,
            'scalar': 20, 'scalar-int': 10, 'model-scalar': 30, 'alb-scalar': 20, 'full': 60,
            'fast': 30, 'numpy-numbers': 60, 'ghi': 20, 'dict-of-scalars': 15, 'ts-list': 8,
            'ts-tz': 10, 'ts-dt64': 10, 'flat': 10, 'frame': 12,
            'shade_front': 10, 'shade_back': 5, 'ghi-default': 15}
TOL = 1e-10
FORMS = ['series-time', 'series-range', 'series-odd', 'mixed', 'int',
         'readonly', 'strided', 'frame', 'int-some']
TS = ['ts-index', 'ts-list', 'ts-tz', 'ts-dt64', 'ts-pydt', 'ts-str',
      'ts-series']
RENAMED = ('dni', 'dhi', 'zen', 'azi', 'tilt', 'saz')


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        out.append(dict(c, form=FORMS[i % len(FORMS)], tsf=TS[i % len(TS)],
                        fast=bool(i % 2), seed=i))
    return out


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, max_zenith=89.5, long_every=0,
                          many=(5, 7), n_steps=(2, 8))
    c['form'] = FORMS[k % len(FORMS)]
    c['tsf'] = TS[int(rng.integers(0, len(TS)))]
    c['fast'] = bool(rng.random() < .4)
    c['seed'] = int(rng.integers(0, 2 ** 31))
    if c['form'] in ('int', 'int-some'):
        t = c['scn']['t']
        for q in RENAMED:
            if c['form'] == 'int' or rng.random() < .5:
                t[q] = [float(round(x)) for x in t[q]]
        t['zen'] = [min(x, 89.) for x in t['zen']]
        t['dni'] = [max(x, 1.) for x in t['dni']]
        t['dhi'] = [max(x, 1.) for x in t['dhi']]
        if 'ghi' in t:
            t['ghi'] = [float(round(x)) for x in t['ghi']]
    return c


def _timestamps(ts, form):
    if form == 'ts-list':
        return list(ts)
    if form == 'ts-pydt':
        return [x.to_pydatetime() for x in ts]
    if form == 'ts-dt64':
        return ts.values
    if form == 'ts-str':
        return [x.strftime('%Y-%m-%d %H:%M') for x in ts]
    if form == 'ts-tz':
        return ts.tz_localize('US/Arizona')
    if form == 'ts-series':
        return pd.Series(ts)
    return ts


def _form(values, form, ts, j, rng):
    """One input (values, float) in the given form; j is its position."""
    n = len(values)
    a = np.array(values, float)
    if form == 'series-time':
        return pd.Series(a, index=ts)
    if form == 'series-range':
        return pd.Series(a)
    if form == 'series-odd':
        return pd.Series(a, index=['step %d' % (n - q) for q in range(n)])
    if form == 'mixed':
        return a if j % 2 else pd.Series(a, index=ts)
    if form in ('int', 'int-some'):
        return a.astype(int) if np.all(a == np.round(a)) else a
    if form == 'readonly':
        a.setflags(write=False)
        return a
    if form == 'strided':
        big = np.full(3 * n, np.nan)
        big[::3] = a
        return big[::3] if j % 2 else big[::3][::-1].copy()[::-1]
    return a


def _fit(scn, args, ghi):
    eng = sut.build_engine(scn)
    with sut.code('fit'):
        eng.fit(*args, ghi=ghi)
    return eng


def _collect(scn, eng, fast, row):
    if fast:
        return compare.fast_result(scn, eng, row)
    return compare.full_result(scn, eng)


def irradiance_of(irr):
    out = {}
    for name in ('GHI', 'albedo', 'isotropic_luminance', 'rho_front',
                 'rho_back'):
        x = getattr(irr, name, None)
        if x is not None:
            out[name] = np.array(np.broadcast_to(np.asarray(x, float), 1)
                                 if np.ndim(x) == 0
                                 else np.asarray(x, float))
    for name in ('direct', 'circumsolar', 'horizon', 'total_perez'):
        for k, x in (getattr(irr, name, None) or {}).items():
            if x is not None:
                out[name + '.' + k] = np.array(np.asarray(x, float).ravel())
    return out


def judge(case, mon):
    scn, form, tsf = case['scn'], case['form'], case['tsf']
    rng = np.random.default_rng(case['seed'])
    n = len(scn['t']['zen'])
    fast = case['fast']
    row = int(rng.integers(0, scn['arr']['n_pvrows']))
    inp = sut.Inputs(scn)
    base = _collect(scn, _fit(scn, inp.fit_args(), inp.ghi), fast, row)
    scale = compare.scale_of(scn)
    from .. import view
    vw = view.fitted(scn)
    for i in range(n):
        vw.step(i).classes(mon)
    mon.hit('fast' if fast else 'full')

    def check(kind, eng, ids=None, tol=TOL, **kw):
        ids = np.arange(n) if ids is None else ids
        res = _collect(subset(scn, ids), eng, fast, row)
        mon.hit(kind)
        mon.sig(kind, form, tsf, scn['irr']['model'], fast, 'ghi' in scn['t'],
                'cut' in scn['arr'], scn['arr']['n_pvrows'])
        compare.same(mon, base, res, ids, np.arange(len(ids)), tol,
                     'form:' + kind, 'results depend on the form of the '
                     'inputs', scale, form=form, tsf=tsf, **kw)
        return res

    # ---- numeric containers
    ts = inp.ts
    vals = [inp.dni, inp.dhi, inp.zen, inp.azi, inp.tilt, inp.saz]
    if form == 'frame':
        df = pd.DataFrame(dict(zip(RENAMED, vals)), index=ts)
        df['alb'] = inp.alb
        if inp.ghi is not None:
            df['ghi'] = inp.ghi
        keep = df.copy()
        args = [df.index] + [df[q] for q in RENAMED] + [df['alb']]
        ghi = df['ghi'] if inp.ghi is not None else None
    else:
        args = [ts] + [_form(x, form, ts, j, rng)
                       for j, x in enumerate(vals)]
        args.append(_form(inp.alb, form if form[:3] != 'int' else '', ts, 6, rng))
        ghi = None if inp.ghi is None else _form(inp.ghi, form, ts, 7, rng)
    mon.hit('ghi', ghi is not None)
    check(form, _fit(scn, args, ghi))
    if form == 'frame':
        mon.ok(bool(df.equals(keep)), 'frame-kept', 'input frame modified')
    # ---- timestamp containers (same clock)
    args = list(inp.fit_args())
    args[0] = _timestamps(ts, tsf)
    check(tsf, _fit(scn, args, inp.ghi))
    # ---- constant albedo
    const = dict(scn, t=dict(scn['t'], alb=[scn['t']['alb'][0]] * n))
    ic = sut.Inputs(const)
    a = list(ic.fit_args())
    b2 = _collect(const, _fit(const, a, ic.ghi), fast, row)
    for val in (float(ic.alb[0]), np.float64(ic.alb[0])):
        a[7] = val
        r2 = _collect(const, _fit(const, a, ic.ghi), fast, row)
        mon.hit('alb-scalar')
        compare.same(mon, b2, r2, np.arange(n), np.arange(n), TOL,
                     'form:alb-scalar', 'albedo given as a scalar', scale)
    # ---- default GHI is the documented one
    if inp.ghi is None:
        g = inp.dni * np.cos(np.radians(inp.zen)) + inp.dhi
        check('ghi-default', _fit(scn, inp.fit_args(), g))
    # ---- scalars, one timestep at a time
    for i in rng.choice(n, min(n, 2), replace=False):
        i = int(i)
        kind = 'scalar'
        conv = [float, np.float64][int(rng.integers(0, 2))]
        sc = [x[i] for x in vals]
        if all(float(x).is_integer() for x in sc):
            kind, conv = 'scalar-int', int
        t = [ts[i], ts[i].to_pydatetime(),
             np.datetime64(ts[i])][int(rng.integers(0, 3))]
        g = None if inp.ghi is None else float(inp.ghi[i])
        eng = _fit(scn, [t] + [conv(x) for x in sc] + [float(inp.alb[i])], g)
        check(kind, eng, [i])
        # ---- the irradiance model alone
        irr = sut.irr_class(scn['irr'])(**sut.irr_kwargs(scn['irr']))
        with sut.code('fit of an irradiance model with scalars'):
            irr.fit(t, *([conv(x) for x in sc] + [float(inp.alb[i])]), ghi=g)
            alone = irradiance_of(irr)
            same = irradiance_of(eng.irradiance)
        mon.hit('model-scalar')
        mon.ok(set(alone) == set(same), 'form:model-scalar',
               'quantities of a model fitted alone', got=sorted(alone),
               want=sorted(same))
        for q in set(alone) & set(same):
            mon.ok(alone[q].shape == same[q].shape == (1,),
                   'form:model-scalar', 'number of values of ' + q,
                   got=alone[q].shape)
            mon.close(alone[q], same[q], TOL, 'form:model-scalar',
                      q + ' of a model fitted alone with scalars',
                      scale=float(np.asarray(scale).ravel()[i]))
        # ---- geometry only, from a dictionary of scalars
        p = dict(sut.array_params(scn['arr']), solar_zenith=conv(sc[2]),
                 solar_azimuth=conv(sc[3]), surface_tilt=conv(sc[4]),
                 surface_azimuth=conv(sc[5]))
        with sut.code('fit_from_dict_of_scalars'):
            arr = sut.OrderedPVArray.fit_from_dict_of_scalars(p)
            c = np.stack([sut.coords(s.ts, 1)[0] for s in sut.all_surfs(arr)])
            arr = sut.OrderedPVArray.init_from_dict(
                sut.array_params(scn['arr']))
            arr.fit(*(conv(x) for x in sc[2:]))
            c2 = np.stack([sut.coords(s.ts, 1)[0]
                           for s in sut.all_surfs(arr)])
        mon.close(c2, vw.C[:, i], 1e-9, 'array-of-scalars',
                  'coordinates of an array fitted to scalars')
        mon.hit('dict-of-scalars')
        mon.close(c, vw.C[:, i], 1e-9, 'dict-of-scalars',
                  'coordinates from a dictionary of scalars')
    # ---- settings and sizes as numbers of numpy, or whole ones as integers
    def number(x):
        if isinstance(x, dict):
            return {number(k): number(y) for k, y in x.items()}
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
            return np.int64(x)
        if isinstance(x, float):
            return int(x) if x.is_integer() and x else np.float64(x)
        return x
    with sut.code('engine with settings that are numbers of numpy'):
        arr = sut.array_class(scn['arr']).init_from_dict(
            number(sut.array_params(scn['arr'])))
        irr = sut.irr_class(scn['irr'])(**number(sut.irr_kwargs(scn['irr'])))
        eng = sut.PVEngine(
            arr, irradiance_model=irr, vf_calculator=sut.VFCalculator(
                **number(sut.vf_kwargs(scn.get('vf')))),
            fast_mode_pvrow_index=np.int64(row))
        eng.fit(*inp.fit_args(), ghi=inp.ghi)
    check('numpy-numbers', eng)
    if fast:
        with sut.code('run_fast_mode of the numbered row'):
            eng.fit(*inp.fit_args(), ghi=inp.ghi)
            nb = len(eng.pvarray.ts_pvrows[row].back.list_segments)
            seg = int(rng.integers(0, nb))
            eng.run_fast_mode(segment_index=np.int64(seg))
            got = [s.get_param_weighted('qinc') if q == seg else None
                   for q, s in enumerate(
                       eng.pvarray.ts_pvrows[row].back.list_segments)][seg]
            ref = _fit(scn, inp.fit_args(), inp.ghi)
            ref.run_fast_mode(pvrow_index=row, segment_index=seg)
            want = ref.pvarray.ts_pvrows[row].back.list_segments[
                seg].get_param_weighted('qinc')
        mon.close(np.nan_to_num(got), np.nan_to_num(want), TOL,
                  'form:numpy-index', 'segment named by a number of numpy',
                  scale=np.asarray(scale))
    # ---- an array described by keywords, with default and explicit options
    with sut.code('OrderedPVArray(...)'):
        kw = sut.array_params(scn['arr'])
        arr = sut.OrderedPVArray(**kw)
        arr.fit(inp.zen, inp.azi, inp.tilt, inp.saz)
        c = np.stack([sut.coords(s.ts, n) for s in sut.all_surfs(arr)])
    mon.close(c, vw.C, 1e-12, 'keywords', 'array built from keywords')


shrink = core.shrink_steps
