"""P25: module reflectivities are taken from the given value, else from the
angle-of-incidence losses, else from the defaults, and the simulation uses
them."""
import numpy as np
from .. import core, sut
from ..scenario import gen_faoi, gen_scenario, make_faoi, module_number

ID = 'P25'
RULE = ('random angle-of-incidence functions (synthetic and from the module '
        'database), 5 to 4000 integral sections, given or missing '
        'reflectivities of several numeric types, both models; non-trivial '
        'per distinct (what is given, functions or not, model, size of the '
        'integral)')
COUNT = {'quick': 1100, 'thorough': 6000}
REQUIRED = {'given': 40, 'calculated': 60, 'default': 20, 'sandia': 30,
            'full': 60, 'fast': 20, 'zero-given': 5, 'mirror-given': 10, 'coarse': 20,
            'fine': 40, 'plain-default': 20, 'half-given': 15, 'one-sided': 15}
MODULES = ['SunPower_128_Cell_Module___2009_', 'Canadian_Solar_CS5P_220M___2009_',
           'SunPower_SPR_315E_WHT__2007__E__', 'Advent_Solar_AS160___2006_']


def corners(tier):
    base = gen_scenario(np.random.default_rng(11), n_steps=(3, 3),
                        model='hybrid', n_rows=3)
    out = []
    for model in ('hybrid', 'isotropic'):
        for rf, rb in ((None, None), (.02, None), (None, .07), (.1, .2),
                       (1e-9, None), (0., .2), (None, 0.), (1., None), (1., 1.),
                       (None, .999)):
            for fn in (True, False):
                out.append({'scn': _model(base, model), 'rho': [rf, rb],
                            'num': 'float', 'fn': fn, 'front': {
                                'kind': 'sandia', 'name': MODULES[0]},
                            'back': {'kind': 'power', 'c': .9, 'k': 4.,
                                     'obj': False}, 'n': 300, 'fast': False})
    return out


def _model(scn, model):
    irr = {k: v for k, v in scn['irr'].items()
           if k not in ('rho_front', 'rho_back')}
    irr['model'] = model
    if model == 'isotropic':
        irr.pop('horizon_band_angle', None)
    return dict(scn, irr=irr)


def gen(rng, k, tier):
    scn = gen_scenario(rng, n_steps=(2, 4), max_rows=3)

    def fn():
        if rng.random() < .4:
            return {'kind': 'sandia', 'name': str(rng.choice(MODULES))
                    if rng.random() < .7 else module_number(rng)}
        f = gen_faoi(rng)
        return dict(f, kind='oneside') if rng.random() < .2 else f

    def rho():
        if rng.random() < .45:
            return None
        return float(np.round(rng.choice([rng.uniform(.005, .4), .01, .03,
                                          rng.uniform(.4, 1.), 1.]), 4))
    return {'scn': _model(scn, scn['irr']['model']), 'rho': [rho(), rho()],
            'num': str(rng.choice(['float', 'np64', 'np32', 'float',
                                   'int'])),
            'fn': [False, 'front', 'back'][k // 3 % 3] if k % 3 == 1 and
            rng.random() < .75 else True, 'front': fn(), 'back': fn(),
            'n': int(rng.choice([5, 20, 300, 1000, 4000,
                                 rng.integers(5, 2000)])),
            'fast': bool(k % 4 == 0)}


_DB = []


def _db():
    if not _DB:
        from pvlib import pvsystem
        _DB.append(pvsystem.retrieve_sam('SandiaMod'))
    return _DB[0]


def _sandia(name):
    if isinstance(name, int):
        name = _db().columns[name]
    m = _db()[name]
    b = [m['B%d' % j] for j in range(6)]

    def ref(a):
        inc = np.abs(90. - np.asarray(a, float))
        y = sum(c * inc ** j for j, c in enumerate(b))
        return np.clip(y, 0., 1.)
    return name, ref


def _fn(spec, mon):
    """(function given to the code, reference function)."""
    if spec['kind'] != 'sandia':
        f = make_faoi(spec)
        mon.hit('one-sided', spec['kind'] == 'oneside')
        return f, getattr(f, 'faoi', f)
    name, ref = _sandia(spec['name'])
    with sut.code('faoi_fn_from_pvlib_sandia(%s)' % name):
        from pvfactors.viewfactors.aoimethods import faoi_fn_from_pvlib_sandia
        f = faoi_fn_from_pvlib_sandia(name)
        a = np.linspace(0., 180., 91)
        got = np.asarray(f(a), float)
        lst = np.asarray(f(a.tolist()), float)
        one = float(f(90.))
        two = np.asarray(f(a.reshape(7, 13)), float)
    mon.close(got, ref(a), 1e-9, 'sandia', name)
    mon.close(lst, ref(a), 1e-9, 'sandia-list', name)
    mon.close(one, ref(90.), 1e-9, 'sandia-scalar', name)
    mon.close(two, ref(a).reshape(7, 13), 1e-9, 'sandia-2d', name)
    mon.close(got, got[::-1], 1e-12, 'sandia-symmetric', name)
    mon.hit('sandia')
    return f, ref


def _num(x, form):
    if x is None:
        return None
    if form == 'int':
        return int(x) if x in (0, 1) else float(x)
    return {'float': float, 'np64': np.float64, 'np32': np.float32}[form](x)


def judge(case, mon):
    from pvfactors.engine import PVEngine
    from pvfactors.geometry import OrderedPVArray
    from pvfactors.viewfactors import VFCalculator
    scn, irr = case['scn'], case['scn']['irr']
    given = [_num(x, case['num']) for x in case['rho']]
    codef, ref = {}, {}
    vfk = {}
    if case['fn'] in ('front', 'back'):
        # the other function is missing: as if none had been given
        f, _ = _fn(case[case['fn']], mon)
        vfk = {'faoi_fn_' + case['fn']: f,
               'n_aoi_integral_sections': case['n']}
        mon.hit('half-given')
    elif case['fn']:
        for s in ('front', 'back'):
            codef[s], ref[s] = _fn(case[s], mon)
        for s in ('front', 'back'):     # (the back did not change the front)
            a = np.linspace(0., 180., 61)
            mon.close(getattr(codef[s], 'faoi', codef[s])(a), ref[s](a), 1e-9,
                      'functions-apart', s)
        vfk = {'faoi_fn_front': codef['front'], 'faoi_fn_back': codef['back'],
               'n_aoi_integral_sections': case['n']}
    want, src = [], []
    # the integral as documented: value of the function at the middle of each
    # section, weighted by the view factor of the section
    th = np.linspace(0., np.pi, case['n'] + 1)
    mid = np.degrees(.5 * (th[1:] + th[:-1]))
    wt = .5 * (np.cos(th[:-1]) - np.cos(th[1:]))
    fine = np.linspace(0., np.pi, 40001)
    fmid = np.degrees(.5 * (fine[1:] + fine[:-1]))
    fwt = .5 * (np.cos(fine[:-1]) - np.cos(fine[1:]))
    for s, x, d in zip(('front', 'back'), given, (.01, .03)):
        if x is not None:
            want.append(float(x))
            src.append('given')
            mon.hit('zero-given', x == 0)
            mon.hit('mirror-given', x > .99)
        elif case['fn'] is True:
            val = 1. - float(np.asarray(ref[s](mid)) @ wt)
            exact = 1. - float(np.asarray(ref[s](fmid)) @ fwt)
            if case['n'] >= 300:
                # the midpoint integral has converged
                mon.close(val, exact, 5e-4, 'harness-integral')
            want.append(val)
            src.append('calculated')
        else:
            want.append(d)
            src.append('default')
        mon.hit(src[-1])
    mon.hit('coarse' if case['n'] <= 20 else 'fine')
    mon.sig(irr['model'], *src, case['fn'], int(np.log2(case['n'])),
            case['fast'], case['num'], case['front'].get('kind'))
    with sut.code('with_rho_initialization'):
        arr = OrderedPVArray.init_from_dict(sut.array_params(scn['arr']))
        calc = VFCalculator(**vfk)
        kw = {k: v for k, v in sut.irr_kwargs(irr).items()}
        # missing reflectivities are requested explicitly
        model = sut.irr_class(irr)(rho_front=given[0], rho_back=given[1],
                                   **kw)
        eng = PVEngine.with_rho_initialization(
            arr, calc, model, fast_mode_pvrow_index=0 if case['fast']
            else None)
        got = [float(eng.irradiance.rho_front), float(eng.irradiance.rho_back)]
    for s, g, w, z in zip(('front', 'back'), got, want, src):
        mon.close(g, w, 1e-9, 'rho-' + z, s + ' side')
        mon.ok(-1e-12 <= g <= 1, 'rho-range', s, value=g)
    # ---- the simulation uses these values
    inp = sut.Inputs(scn)
    if min(want) < 1e-6:     # perfectly black modules are out of the domain
        mon.ev('black-modules')
        return
    with sut.code('fit and run'):
        eng.fit(*inp.fit_args(), ghi=inp.ghi)
        if case['fast']:
            eng.run_fast_mode()
        else:
            eng.run_full_mode()
    mon.hit('fast' if case['fast'] else 'full')
    scn2 = dict(scn, irr=dict(irr, rho_front=want[0], rho_back=want[1]),
                vf={})
    with sut.code('reference engine'):
        e2 = PVEngine(OrderedPVArray.init_from_dict(
            sut.array_params(scn['arr'])),
            vf_calculator=VFCalculator(**(vfk if case['fn'] is True
                                          else {})), irradiance_model=sut.irr_class(
                irr)(**sut.irr_kwargs(scn2['irr'])))
        inp = sut.Inputs(scn)
        e2.fit(*inp.fit_args(), ghi=inp.ghi)
        if case['fast']:
            e2.run_fast_mode(pvrow_index=0)
        else:
            e2.run_full_mode()
    n = len(scn['t']['zen'])
    sc = np.array(scn['t']['dni']) + np.array(scn['t']['dhi']) + 1.
    for r, (a, b) in enumerate(zip(eng.pvarray.ts_pvrows, e2.pvarray.ts_pvrows)):
        for s in ('front', 'back'):
            if case['fast'] and (r != 0 or s != 'back'):
                continue
            names = ['qinc'] if case['fast'] else ['qinc', 'rho'] + (
                ['qabs'] if case['fn'] is True else [])
            for nm in names:
                with sut.code('get_param_weighted(%s)' % nm):
                    x = np.asarray(getattr(a, s).get_param_weighted(nm))
                    y = np.asarray(getattr(b, s).get_param_weighted(nm))
                mon.close(x, y, 1e-9, 'run-' + nm, 'row %d %s' % (r, s),
                          scale=1. if nm == 'rho' else sc)
                if nm == 'rho':
                    mon.close(x, want[s == 'back'], 1e-9, 'rho-on-surfaces',
                              'row %d %s' % (r, s))
    del n
    # ---- a plainly built engine uses the documented defaults
    if 'default' in src or src == ['calculated', 'calculated']:
        with sut.code('defaults'):
            m = sut.irr_class(irr)()
        mon.close([m.rho_front, m.rho_back], [.01, .03], 0.,
                  'plain-default')
        mon.hit('plain-default')


def shrink(case):
    yield from core.shrink_steps(case)
