"""P23: the report of a simulation is what an independent simulation of the
same scene gives, from raw inputs to irradiance per row side and segment."""
import numpy as np
from .. import cases, core, ref, sut, view

ID = 'P23'
RULE = ('random and directed scenes simulated in full or fast mode (any row '
        'and segment) through the engine, the functional runner, the '
        'parallel runner or one timestep at a time, compared with an '
        'independent ray-cast simulation (dense radiosity, or one reflection '
        'of known light); '
        'non-trivial per distinct situation of a judged timestep, model, '
        'entry point and options')
COUNT = {'quick': 900, 'thorough': 6000}
REQUIRED = {'step': 500, 'flat': 10, 'over': 30, 'shade_front': 30,
            'shade_back': 15, 'left': 60, 'cut': 80, 'engine': 300,
            'runner': 100, 'scalar': 15, 'through': 60, 'hybrid': 200,
            'isotropic': 100, 'fast': 150, 'fast-engine': 40,
            'fast-runner': 40, 'fast-parallel': 5, 'fast-scalar': 10,
            'fast-ghi': 20, 'fast-scalar-ghi': 3, 'fast-first-row': 30,
            'fast-first-segment': 30, 'fast-later-segment': 15,
            'full-parallel': 5}
ASSUMPTIONS = ['the partition of ground and rows into surfaces is taken from '
               'the code (it is judged separately)',
               'timesteps with the sun in the plane of the rows, or whose '
               'Perez diffuse light is clipped to zero, are not judged']
shrink = core.shrink_steps
TOL = 2e-5
NAMES = ['qinc', 'isotropic', 'reflection', 'qabs']


VIAS = ('engine', 'runner', 'engine', 'runner', 'scalar', 'parallel')


def corners(tier):
    out = []
    for i, c in enumerate(cases.corner_cases()):
        out.append(dict(c, via=('engine', 'runner', 'scalar')[i % 3]))
        R = c['scn']['arr']['n_pvrows']
        out.append(dict(c, via=('runner', 'scalar', 'engine')[i % 3],
                        fast=[i % R, (None, 0)[i // 2 % 2]]))
    return out


def gen(rng, k, tier):
    c = cases.random_case(rng, k, tier, max_zenith=89.3, long_every=0,
                          many=(5, 8))
    c['via'] = VIAS[k % 5] if k % 23 != 7 else 'parallel'
    if c['via'] == 'scalar':
        from ..scenario import subset
        c['scn'] = subset(c['scn'], [0, -1])
    if rng.random() < .45:
        a = c['scn']['arr']
        R = a['n_pvrows']
        row = int(rng.choice([0, R - 1, rng.integers(0, R)]))
        nb = int(a.get('cut', {}).get(str(row), {}).get('back', 1))
        c['fast'] = [row, None if rng.random() < .4
                     else int(rng.integers(0, nb))]
    return c


def _read(obj, nm):
    try:
        x = obj.get_param_weighted(nm)
    except KeyError:
        return None
    return [float(q) for q in np.atleast_1d(np.asarray(x, float))]


def report_fn(arr):
    """Irradiance per side and segment; None where there is none."""
    out = {}
    for r, row in enumerate(arr.ts_pvrows):
        for s in ('front', 'back'):
            side = getattr(row, s)
            for nm in NAMES:
                out[r, s, nm] = _read(side, nm)
                for j, seg in enumerate(side.list_segments):
                    out[r, s, j, nm] = _read(seg, nm)
    return out


class Reports(object):
    build = staticmethod(report_fn)

    @staticmethod
    def merge(reports):
        out = dict(reports[0])
        for rep in reports[1:]:
            for k, x in rep.items():
                out[k] = None if x is None or out[k] is None else out[k] + x
        return out


def _simulate(scn, via, fast):
    inp = sut.Inputs(scn)
    kw = {} if fast is None else {'fast_mode_pvrow_index': fast[0],
                                  'fast_mode_segment_index': fast[1]}
    if via in ('runner', 'parallel'):
        with sut.code('run_%s_engine' % via):
            from pvfactors.run import (run_parallel_engine,
                                       run_timeseries_engine)
            kw.update(cls_irradiance=sut.irr_class(scn['irr']),
                      irradiance_model_params=sut.irr_kwargs(scn['irr']),
                      ghi=inp.ghi)
            if via == 'parallel':
                return run_parallel_engine(
                    Reports, sut.array_params(scn['arr']), *inp.fit_args(),
                    n_processes=2 if inp.n > 1 else 1, **kw)
            return run_timeseries_engine(
                report_fn, sut.array_params(scn['arr']), *inp.fit_args(),
                **kw)

    def run(eng):
        if fast is None:
            return eng.run_full_mode(fn_build_report=report_fn)
        return eng.run_fast_mode(fn_build_report=report_fn)
    if via == 'engine':
        with sut.code('engine'):
            eng = sut.build_engine(scn, **kw)
            if fast is None:
                sut.before(eng, scn)
            eng.fit(*inp.fit_args(), ghi=inp.ghi)
            return run(eng)
    out = []
    for i in range(inp.n):
        with sut.code('engine with scalars'):
            eng = sut.build_engine(scn, **kw)
            a = [x[i] for x in inp.fit_args()]
            a = [a[0].to_pydatetime()] + [float(x) for x in a[1:]]
            eng.fit(*a, ghi=None if inp.ghi is None else float(inp.ghi[i]))
            out.append(run(eng))
    return Reports.merge(out)


def judge(case, mon):
    scn, via, fast = case['scn'], case['via'], case.get('fast')
    rep = _simulate(scn, via, fast)
    v = view.fitted(scn)
    names = NAMES if fast is None else NAMES[:3]
    for key, x in rep.items():
        asked = fast is None or (
            key[:2] == (fast[0], 'back')
            and (fast[1] is None or (len(key) == 4 and key[2] == fast[1])))
        if not asked:
            if len(key) == 4 and key[-1] in names:
                mon.ok(x is None, 'only-asked', 'results for a segment that '
                       'was not asked for', got=str(key), want=str(fast))
            continue
        if key[-1] in names:
            mon.ok(x is not None and len(x) == v.n, 'all-timesteps',
                   'not one result per timestep', got=str(key),
                   want='%d timesteps' % v.n)
    mode = 'full' if fast is None else 'fast'
    for i in range(v.n):
        st = v.step(i)
        if not st.usable:
            mon.ev('skipped-irregular')
            continue
        mon.sig(scn['irr']['model'], via, st.classes(mon), mode,
                't' if st.sky.through else '')
        mon.hit(via)
        mon.hit(mode)
        mon.hit(mode + '-' + via)
        mon.hit(scn['irr']['model'])
        mon.hit('through', st.sky.through > 0)
        agg = {}
        if fast is None:
            sol = st.solution()
            for p in st.pats:
                if p.kind != 'r':
                    continue
                s = v.surfs[p.pos]
                x = sol[p.pos]
                x['qabs'] = (1. - x['rho']) * x['qinc']
                for key in ((p.row, p.side), (p.row, p.side, s.seg)):
                    agg.setdefault(key, []).append((p.length, x))
        else:
            given = scn['t'].get('ghi') is not None
            mon.hit('fast-ghi', given)
            mon.hit('fast-scalar-ghi', given and via == 'scalar')
            mon.hit('fast-first-row', fast[0] == 0)
            mon.hit('fast-first-segment', fast[1] == 0)
            mon.hit('fast-later-segment', bool(fast[1]))
            for p in st.pats:
                if p.kind != 'r' or (p.row, p.side) != (fast[0], 'back'):
                    continue
                s = v.surfs[p.pos]
                if fast[1] is not None and s.seg != fast[1]:
                    continue
                x = ref.fast_terms(st, p, ref.fast_vf(st.geo, st.pats, p))
                agg.setdefault((p.row, p.side, s.seg), []).append(
                    (p.length, x))
                if fast[1] is None:
                    agg.setdefault((p.row, p.side), []).append((p.length, x))
        sc = v.scale[i]
        for key, lst in agg.items():
            tot = sum(w for w, _ in lst)
            for nm in names:
                want = sum(w * x[nm] for w, x in lst) / tot
                got = rep[key + (nm,)]
                if got is None or len(got) != v.n:
                    continue              # (reported above)
                mon.close(got[i], want, TOL, 'report:' + nm,
                          'row %d %s%s' % (key[0], key[1], ' segment %d'
                                           % key[2] if len(key) > 2 else ''),
                          scale=sc, step=i, via=via, mode=mode)
